From 4d5bb7d8749d9700eb170eeaa857d70bcf54f698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:19 +0000
Subject: [PATCH 01/21] fix: write and read LAST-MODIFIED under its RFC 5545
 name

The accessor pair used LAST_MODIFIED, so emitted calendars carried an unknown
property and get_last_modified() returned None for every conforming calendar.
---
 src/components.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/components.rs b/src/components.rs
index 117fbf8..0de7e77 100644
--- a/src/components.rs
+++ b/src/components.rs
@@ -283,16 +283,16 @@ pub trait Component {
         self.property_value("URL")
     }
 
-    /// Set the [`LAST_MODIFIED`](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.7.3) [`Property`]
+    /// Set the [`LAST-MODIFIED`](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.7.3) [`Property`]
     ///
     /// This must be a UTC date-time value.
     fn last_modified(&mut self, dt: DateTime<Utc>) -> &mut Self {
-        self.add_property("LAST_MODIFIED", format_utc_date_time(dt))
+        self.add_property("LAST-MODIFIED", format_utc_date_time(dt))
     }
 
-    /// Gets the [`LAST_MODIFIED`](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.7.3) property.
+    /// Gets the [`LAST-MODIFIED`](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.7.3) property.
     fn get_last_modified(&self) -> Option<DateTime<Utc>> {
-        parse_utc_date_time(self.property_value("LAST_MODIFIED")?)
+        parse_utc_date_time(self.property_value("LAST-MODIFIED")?)
     }
 
     /// Set the [`CREATED`](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.7.1) [`Property`]
-- 
2.43.0


From af0e5ba4d12d90cb607076096bbd761c292b727f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:21 +0000
Subject: [PATCH 02/21] fix: read TIMEZONE-ID in Calendar::get_timezone

The setter writes TIMEZONE-ID, the getter looked for TIMEZONE_ID.
---
 src/calendar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/calendar.rs b/src/calendar.rs
index 118142c..e1aa9af 100644
--- a/src/calendar.rs
+++ b/src/calendar.rs
@@ -177,9 +177,9 @@ impl Calendar {
         self
     }
 
-    /// Gets the value of the `TIMEZONE_ID` or `X-WR-TIMEZONE` property.
+    /// Gets the value of the `TIMEZONE-ID` or `X-WR-TIMEZONE` property.
     pub fn get_timezone(&self) -> Option<&str> {
-        self.property_value("TIMEZONE_ID")
+        self.property_value("TIMEZONE-ID")
             .or_else(|| self.property_value("X-WR-TIMEZONE"))
     }
 
-- 
2.43.0


From 19abcd0133644dc0b816b0ba80209458ed1345e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 03/21] fix: decode TEXT escapes in a single pass

Sequential replacement decoded the result of an earlier replacement again, so
a literal backslash followed by n, N, ',', ';' or ':' did not survive a round
trip.
---
 src/parser/parsed_string.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/parser/parsed_string.rs b/src/parser/parsed_string.rs
index f7af4b5..d9fb56b 100644
--- a/src/parser/parsed_string.rs
+++ b/src/parser/parsed_string.rs
@@ -43,14 +43,25 @@ impl<'a> ParseString<'a> {
             || self.0.contains(r#"\N"#)
             || self.0.contains(r#"\n"#)
         {
-            self.0
-                .replace(r#"\\"#, r#"\"#)
-                .replace(r#"\,"#, ",")
-                .replace(r#"\;"#, ";")
-                .replace(r#"\:"#, ":")
-                .replace(r#"\N"#, "\n")
-                .replace(r#"\n"#, "\n")
-                .into()
+            // every escape has to be decoded exactly once, left to right
+            let mut unescaped = String::with_capacity(self.0.len());
+            let mut chars = self.0.chars();
+            while let Some(c) = chars.next() {
+                if c != '\\' {
+                    unescaped.push(c);
+                    continue;
+                }
+                match chars.next() {
+                    Some('n' | 'N') => unescaped.push('\n'),
+                    Some(c @ ('\\' | ',' | ';' | ':')) => unescaped.push(c),
+                    Some(c) => {
+                        unescaped.push('\\');
+                        unescaped.push(c);
+                    }
+                    None => unescaped.push('\\'),
+                }
+            }
+            unescaped.into()
         } else {
             self
         }
-- 
2.43.0


From eafebc14249ff9119e698b5daa8399e40c953fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 04/21] fix: never emit a folded line of 76 octets

The leading space of a continuation line counts towards the 75 octet limit,
the last line was not checked against that.
---
 src/properties.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/properties.rs b/src/properties.rs
index 07cae81..1216cc2 100644
--- a/src/properties.rs
+++ b/src/properties.rs
@@ -393,8 +393,10 @@ pub(crate) fn fold_line(line: &str) -> String {
 
     let mut pos = 0;
     let mut next_pos = LIMIT;
+    // continuation lines start with a space, which counts as well
+    let mut limit = LIMIT;
 
-    while bytes_remaining > LIMIT {
+    while bytes_remaining > limit {
         let pos_is_whitespace = |line: &str, next_pos| {
             line.chars()
                 .nth(next_pos)
@@ -416,7 +418,8 @@ pub(crate) fn fold_line(line: &str) -> String {
 
         bytes_remaining -= next_pos - pos;
         pos = next_pos;
-        next_pos += LIMIT - 1;
+        limit = LIMIT - 1;
+        next_pos += limit;
     }
 
     ret.push_str(&line[len - bytes_remaining..]);
-- 
2.43.0


From 3dea4369459de4056e6a3cabe903800028ddb582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:27 +0000
Subject: [PATCH 05/21] fix: end a property value at the first line ending of
 either kind

A value terminated by LF swallowed all following lines up to the next CRLF.
---
 src/parser/properties.rs | 14 +++++---------
 src/parser/utils.rs      | 13 +++++++++++++
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/parser/properties.rs b/src/parser/properties.rs
index c39bd16..1b220b8 100644
--- a/src/parser/properties.rs
+++ b/src/parser/properties.rs
@@ -8,11 +8,11 @@ use crate::{parser::utils::valid_key_sequence_cow, properties::fold_line, value_
 use super::{
     parameters::{parameters, Parameter},
     parsed_string::ParseString,
-    utils::property_key,
+    utils::{property_key, until_line_ending},
 };
 use nom::{
     branch::alt,
-    bytes::complete::{tag, take_until, take_while},
+    bytes::complete::tag,
     character::complete::{line_ending, multispace0},
     combinator::{cut, opt},
     error::{context, convert_error, ContextError, ParseError, VerboseError},
@@ -387,13 +387,9 @@ pub fn property<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
                     context("property separator", tag(":")), // separator
                     context(
                         "property value",
-                        alt((
-                            take_until("\r\n"),
-                            take_until("\n"),
-                            // this is for single line prop parsing, just so I can leave off the '\n'
-                            take_while(|_| true),
-                        ))
-                        .map(ParseString::from),
+                        // stops at the end of input too, this is for single line prop parsing,
+                        // just so I can leave off the '\n'
+                        until_line_ending.map(ParseString::from),
                     ),
                 ),
                 context(
diff --git a/src/parser/utils.rs b/src/parser/utils.rs
index d04c886..426b2ff 100644
--- a/src/parser/utils.rs
+++ b/src/parser/utils.rs
@@ -58,6 +58,19 @@ pub fn line_separated<'a, O, E: ParseError<&'a str>, F: Parser<&'a str, O, E>>(
     delimited(many0(line_ending), f, many0(line_ending))
 }
 
+/// Everything up to, but excluding, the next line ending or the end of the input.
+pub fn until_line_ending<'a, E: ParseError<&'a str>>(
+    input: &'a str,
+) -> IResult<&'a str, &'a str, E> {
+    let end = match input.find('\n') {
+        Some(newline) if input.get(..newline).map_or(false, |l| l.ends_with('\r')) => newline - 1,
+        Some(newline) => newline,
+        None => input.len(),
+    };
+    let (value, rest) = input.split_at(end);
+    Ok((rest, value))
+}
+
 /// Normalize content lines.
 ///
 /// This simplifies line endings and unfolds breaks to simplify parsing.
-- 
2.43.0


From f3a23ba141087bfdb1e3eab02f9751401746111d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:05 +0000
Subject: [PATCH 06/21] fix: escape and quote when reserializing a parsed
 calendar

The parser decodes TEXT values and strips the quotes of parameter values, so
Display has to put both back, otherwise the output does not parse again (or
parses as something else).
---
 src/parser/properties.rs | 10 ++++++++--
 src/properties.rs        |  4 ++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/parser/properties.rs b/src/parser/properties.rs
index 1b220b8..c7e55c7 100644
--- a/src/parser/properties.rs
+++ b/src/parser/properties.rs
@@ -69,12 +69,18 @@ impl Property<'_> {
         write!(line, "{}", self.name.as_str())?;
         for Parameter { key, val } in &self.params {
             if let Some(val) = val {
-                write!(line, ";{}={}", key.as_str(), val.as_str())?;
+                let val = crate::Property::quote_if_contains_colon(val.as_str());
+                write!(line, ";{}={}", key.as_str(), val)?;
             } else {
                 write!(line, ";{}", key.as_str())?;
             }
         }
-        write!(line, ":{}", self.val.as_str())?;
+        match determin_value_type(&self.name, &self.params) {
+            Some(ValueType::Text) => {
+                write!(line, ":{}", crate::Property::escape_text(self.val.as_str()))?
+            }
+            _ => write!(line, ":{}", self.val.as_str())?,
+        }
         write_crlf!(out, "{}", fold_line(&line))?;
         Ok(())
     }
diff --git a/src/properties.rs b/src/properties.rs
index 1216cc2..bbc56f3 100644
--- a/src/properties.rs
+++ b/src/properties.rs
@@ -154,7 +154,7 @@ impl Property {
     }
 
     /// <https://datatracker.ietf.org/doc/html/rfc5545#section-3.3.11>
-    fn escape_text(input: &str) -> String {
+    pub(crate) fn escape_text(input: &str) -> String {
         input
             .replace('\\', r#"\\"#)
             .replace(',', r#"\,"#)
@@ -162,7 +162,7 @@ impl Property {
             .replace('\n', r#"\N"#)
     }
 
-    fn quote_if_contains_colon(input: &str) -> String {
+    pub(crate) fn quote_if_contains_colon(input: &str) -> String {
         if input.contains([':', ';']) {
             let mut quoted = String::with_capacity(input.len() + 2);
             quoted.push('"');
-- 
2.43.0


From b637109c097eae771ce63f6541a947331653280e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:08 +0000
Subject: [PATCH 07/21] fix: serialize parameters in a reproducible order

Iterating over the HashMap made the output differ from run to run.
---
 src/properties.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/properties.rs b/src/properties.rs
index bbc56f3..81d3f93 100644
--- a/src/properties.rs
+++ b/src/properties.rs
@@ -180,7 +180,10 @@ impl Property {
         let mut line = String::with_capacity(150);
 
         write!(line, "{}", self.key)?;
-        for Parameter { key, val } in self.params.values() {
+        // the order must not depend on the map's random state
+        let mut params = self.params.values().collect::<Vec<_>>();
+        params.sort_by(|a, b| a.key.cmp(&b.key));
+        for Parameter { key, val } in params {
             write!(line, ";{}={}", key, Self::quote_if_contains_colon(val))?;
         }
         let value_type = self.value_type();
-- 
2.43.0


From b532d7434ab400de8c9ae1add0c63404482e77e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:10 +0000
Subject: [PATCH 08/21] fix: treat calendar name, description, timezone and
 venue fields as TEXT

The builder offers setters for these free text properties, but wrote them
unescaped, a newline in them started a new content line.
---
 src/value_types.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/value_types.rs b/src/value_types.rs
index 2cad232..1775bb5 100644
--- a/src/value_types.rs
+++ b/src/value_types.rs
@@ -49,6 +49,21 @@ impl ValueType {
             "PRODID" => Some(Text),   // 3.7.3
             "VERSION" => Some(Text),  //3.7.4
 
+            // RFC 7986 and de facto standard calendar properties
+            "NAME" => Some(Text),
+            "X-WR-CALNAME" => Some(Text),
+            "X-WR-CALDESC" => Some(Text),
+            "TIMEZONE-ID" => Some(Text),
+            "X-WR-TIMEZONE" => Some(Text),
+
+            // draft-norris-ical-venue
+            "STREET-ADDRESS" => Some(Text),
+            "EXTENDED-ADDRESS" => Some(Text),
+            "LOCALITY" => Some(Text),
+            "REGION" => Some(Text),
+            "COUNTRY" => Some(Text),
+            "POSTAL-CODE" => Some(Text),
+
             // 3.8.0 component properties
             "ATTACH" => Some(Uri),               // or BINARY // 3.8.1.1
             "CATEGORIES" => Some(Text),          // 3.8.1.2
-- 
2.43.0


From a8f6936739f866175d1ccfa5a5a202f1a437a723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:12 +0000
Subject: [PATCH 09/21] fix: keep the calendar's own properties in
 From<Vec<parser::Component>>

They were dropped and replaced by the defaults.
---
 src/parser/calendar.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/parser/calendar.rs b/src/parser/calendar.rs
index 218a8a8..d74a2e3 100644
--- a/src/parser/calendar.rs
+++ b/src/parser/calendar.rs
@@ -76,11 +76,15 @@ impl<'a> From<Vec<Component<'a>>> for crate::Calendar {
             .map(|first_root| first_root.name == "VCALENDAR")
             .unwrap_or(false);
 
-        let components: Vec<Component<'a>> = if root_is_calendar {
-            components.swap_remove(0).components
-        } else {
-            components
-        };
+        if root_is_calendar {
+            let root = components.swap_remove(0);
+            return Calendar {
+                properties: root.properties,
+                components: root.components,
+            }
+            .into();
+        }
+
         components
             .into_iter()
             .map(|c: Component<'a>| {
-- 
2.43.0


From 2f20db59436ed1bef95d058f89c714a66d7f4478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:14 +0000
Subject: [PATCH 10/21] fix: read all root components

With more than one root component (or anything after the first) the parser
silently returned no component at all.
---
 src/parser/components.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/components.rs b/src/parser/components.rs
index 292841f..b1168f4 100644
--- a/src/parser/components.rs
+++ b/src/parser/components.rs
@@ -4,7 +4,7 @@ use chrono::Utc;
 use nom::{
     branch::alt,
     bytes::complete::tag,
-    combinator::{all_consuming, complete, cut},
+    combinator::{complete, cut},
     error::{context, convert_error, ContextError, ParseError, VerboseError},
     multi::{many0, many_till},
     Finish, IResult, Parser,
@@ -515,5 +515,5 @@ fn test_faulty_component() {
 pub fn components<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     input: &'a str,
 ) -> IResult<&'a str, Vec<Component<'a>>, E> {
-    complete(many0(all_consuming(component)))(input)
+    complete(many0(component))(input)
 }
-- 
2.43.0


From fceb8334de50064507c80d7a84e8c26550c11a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:17 +0000
Subject: [PATCH 11/21] fix: parse signed durations

Triggers before the event are negative durations, the builder writes them but
Trigger::try_from() rejected them.
---
 src/components/date_time.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/components/date_time.rs b/src/components/date_time.rs
index 67b6c68..2e0ff3e 100644
--- a/src/components/date_time.rs
+++ b/src/components/date_time.rs
@@ -22,9 +22,16 @@ pub(crate) fn format_utc_date_time(utc_dt: DateTime<Utc>) -> String {
 }
 
 pub(crate) fn parse_duration(s: &str) -> Option<Duration> {
-    iso8601::duration(s)
+    // RFC 5545 durations may carry a sign, ISO 8601 durations may not
+    let (negative, unsigned) = match s.strip_prefix('-') {
+        Some(unsigned) => (true, unsigned),
+        None => (false, s.strip_prefix('+').unwrap_or(s)),
+    };
+
+    iso8601::duration(unsigned)
         .ok()
         .and_then(|iso| Duration::from_std(iso.into()).ok())
+        .map(|duration| if negative { -duration } else { duration })
 }
 
 pub(crate) fn naive_date_to_property(date: NaiveDate, key: &str) -> Property {
-- 
2.43.0


From ca832de7f86181ba241d585c46be9e8295461a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:19 +0000
Subject: [PATCH 12/21] fix: read the TZID of an absolute trigger

A trigger with a time zone became a floating one.
---
 src/components/alarm.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/components/alarm.rs b/src/components/alarm.rs
index 3b45d89..006e48c 100644
--- a/src/components/alarm.rs
+++ b/src/components/alarm.rs
@@ -519,7 +519,9 @@ pub mod properties {
             match (prop.key(), prop.params().get("VALUE").map(Parameter::value)) {
                 ("TRIGGER", Some("DATE-TIME")) => {
                     // date-time needs to be qualified "VALUE=DATE-TIME"
-                    CalendarDateTime::from_str(prop.value()).map(Trigger::from)
+                    CalendarDateTime::from_property(prop)
+                        .map(Trigger::from)
+                        .ok_or(())
                 }
                 ("TRIGGER", Some("DURATION") | None) => {
                     // duration is the assumed default or "VALUE=DURATION"
-- 
2.43.0


From 260e801b5b1f34e2b36ae60f635a0261020bec23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:10 +0000
Subject: [PATCH 13/21] fix: keep PERCENT-COMPLETE within its documented range

Same treatment as PRIORITY, values above 100 are not valid in RFC 5545.
---
 src/components/todo.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/components/todo.rs b/src/components/todo.rs
index aa4a214..44e0f91 100644
--- a/src/components/todo.rs
+++ b/src/components/todo.rs
@@ -24,8 +24,9 @@ impl Todo {
 
     /// Set the [`PERCENT-COMPLETE`](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.1.8) property
     ///
-    /// Ranges between 0 - 100
+    /// Ranges between 0 - 100, larger values will be truncated
     pub fn percent_complete(&mut self, percent: u8) -> &mut Self {
+        let percent = std::cmp::min(percent, 100);
         self.add_property("PERCENT-COMPLETE", percent.to_string())
     }
 
@@ -33,7 +34,12 @@ impl Todo {
     ///
     /// Ranges between 0 - 100.
     pub fn get_percent_complete(&self) -> Option<u8> {
-        self.property_value("PERCENT-COMPLETE")?.parse().ok()
+        let percent = self.property_value("PERCENT-COMPLETE")?.parse().ok()?;
+        if percent <= 100 {
+            Some(percent)
+        } else {
+            None
+        }
     }
 
     /// Set the [`DUE`](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.2.3) property
-- 
2.43.0


From d47209b7397689679629508b7d4ea5c8350713a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:12 +0000
Subject: [PATCH 14/21] fix: keep all RELATED-TO and REQUEST-STATUS properties

The list of repeatable properties named the ABNF rules (related, rstatus), so
only the last of several such lines survived.
---
 src/parser/properties.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/properties.rs b/src/parser/properties.rs
index c7e55c7..f51f9b9 100644
--- a/src/parser/properties.rs
+++ b/src/parser/properties.rs
@@ -36,9 +36,9 @@ const MULTIS: [&str; 13] = [
     "FREEBUSY",
     "IANA-PROP",
     "RDATE",
-    "RELATED",
+    "RELATED-TO",
     "RESOURCES",
-    "RSTATUS",
+    "REQUEST-STATUS",
     "X-PROP",
 ];
 
-- 
2.43.0


From 10d9fb07ccb836b5c8e26422b2f9643ff56222d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:14 +0000
Subject: [PATCH 15/21] fix: accept property names that merely start with END
 or BEGIN

---
 src/parser/utils.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/utils.rs b/src/parser/utils.rs
index 426b2ff..8e44ea0 100644
--- a/src/parser/utils.rs
+++ b/src/parser/utils.rs
@@ -16,13 +16,14 @@ use super::parsed_string::ParseString;
 pub fn property_key<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     input: &'a str,
 ) -> IResult<&'a str, &'a str, E> {
-    if input.get(0..=2) == Some("END") || input.get(0..=4) == Some("BEGIN") {
+    let (rest, key) = valid_key_sequence(input)?;
+    if key == "END" || key == "BEGIN" {
         IResult::Err(Err::Error(nom::error::make_error(
             input,
             nom::error::ErrorKind::Satisfy,
         )))
     } else {
-        valid_key_sequence(input)
+        Ok((rest, key))
     }
 }
 
-- 
2.43.0


From 3e0e04d6179d95fc2a0d5d7dc0dec64381b78f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:16 +0000
Subject: [PATCH 16/21] fix: compare the name of an END line as a whole

END:FOOBAR closed a component FOO.
---
 src/parser/components.rs | 15 ++++++++++++---
 src/parser/utils.rs      | 15 ++++++---------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/parser/components.rs b/src/parser/components.rs
index b1168f4..7b4e843 100644
--- a/src/parser/components.rs
+++ b/src/parser/components.rs
@@ -4,9 +4,11 @@ use chrono::Utc;
 use nom::{
     branch::alt,
     bytes::complete::tag,
-    combinator::{complete, cut},
+    character::complete::satisfy,
+    combinator::{complete, cut, not},
     error::{context, convert_error, ContextError, ParseError, VerboseError},
     multi::{many0, many_till},
+    sequence::terminated,
     Finish, IResult, Parser,
 };
 
@@ -20,7 +22,7 @@ use super::{
     parsed_string::ParseString,
     properties::property,
     unfold,
-    utils::{line, line_separated, valid_key_sequence_cow},
+    utils::{is_key_char, line, line_separated, valid_key_sequence_cow},
     Property,
 };
 
@@ -257,7 +259,14 @@ pub fn component<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
                 line_separated(property).map(ComponentChild::Property),
             )),
         )),
-        line("END:", cut(context("mismatching end", tag(name.as_str())))),
+        line(
+            "END:",
+            cut(context(
+                "mismatching end",
+                // the name has to match as a whole
+                terminated(tag(name.as_str()), not(satisfy(is_key_char))),
+            )),
+        ),
     )
     .map(|(body_elements, _)| {
         let mut properties = Vec::new();
diff --git a/src/parser/utils.rs b/src/parser/utils.rs
index 8e44ea0..65c9dae 100644
--- a/src/parser/utils.rs
+++ b/src/parser/utils.rs
@@ -27,23 +27,20 @@ pub fn property_key<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     }
 }
 
+pub fn is_key_char(c: char) -> bool {
+    c == '.' || c == ',' || c == '/' || c == '_' || c == '-' || c.is_alphanumeric()
+}
+
 pub fn valid_key_sequence<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     input: &'a str,
 ) -> IResult<&'a str, &'a str, E> {
-    take_while(|c: char| {
-        c == '.' || c == ',' || c == '/' || c == '_' || c == '-' || c.is_alphanumeric()
-    })
-    .parse(input)
+    take_while(is_key_char).parse(input)
 }
 
 pub fn valid_key_sequence_cow<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     input: &'a str,
 ) -> IResult<&'a str, ParseString<'a>, E> {
-    take_while(|c: char| {
-        c == '.' || c == ',' || c == '/' || c == '_' || c == '-' || c.is_alphanumeric()
-    })
-    .map(ParseString::from)
-    .parse(input)
+    take_while(is_key_char).map(ParseString::from).parse(input)
 }
 
 pub fn line<'a, O, E: ParseError<&'a str>, F: Parser<&'a str, O, E>>(
-- 
2.43.0


From 55c239300ca17feec5661300b755c2a854e50e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:40 +0000
Subject: [PATCH 17/21] fix: report an unterminated component

A calendar that ends before its END line was read as an empty calendar,
silently dropping everything in it.
---
 src/parser/components.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/parser/components.rs b/src/parser/components.rs
index 7b4e843..f4a0b32 100644
--- a/src/parser/components.rs
+++ b/src/parser/components.rs
@@ -5,7 +5,7 @@ use nom::{
     branch::alt,
     bytes::complete::tag,
     character::complete::satisfy,
-    combinator::{complete, cut, not},
+    combinator::{complete, cut, not, verify},
     error::{context, convert_error, ContextError, ParseError, VerboseError},
     multi::{many0, many_till},
     sequence::terminated,
@@ -249,9 +249,15 @@ pub fn read_component(input: &str) -> Result<Component<'_>, String> {
 pub fn component<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     input: &'a str,
 ) -> IResult<&'a str, Component<'a>, E> {
-    let (input, name) = line("BEGIN:", valid_key_sequence_cow)(input)?;
-
-    let (input, (properties, components)) = many_till(
+    let (input, name) = line(
+        "BEGIN:",
+        verify(valid_key_sequence_cow, |name: &ParseString<'_>| {
+            !name.as_str().is_empty()
+        }),
+    )(input)?;
+
+    // a component without a name is not one, but a named one has to be complete
+    let body = many_till(
         cut(context(
             "component",
             alt((
@@ -278,8 +284,8 @@ pub fn component<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
             }
         }
         (properties, components)
-    })
-    .parse(input)?;
+    });
+    let (input, (properties, components)) = cut(body)(input)?;
 
     let (input, _) = many0(tag("\n"))(input)?;
 
-- 
2.43.0


From 1f0791ee35de2643b070914509701a6655d84ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:17 +0000
Subject: [PATCH 18/21] fix: folding always makes progress

Skipping whitespace while looking for a character boundary could move the
fold position back to the previous one, or below zero.
---
 src/properties.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/properties.rs b/src/properties.rs
index 81d3f93..a02afec 100644
--- a/src/properties.rs
+++ b/src/properties.rs
@@ -411,10 +411,8 @@ pub(crate) fn fold_line(line: &str) -> String {
         }
 
         while !line.is_char_boundary(next_pos) {
+            // at most three steps, so that every line makes progress
             next_pos -= 1;
-            if pos_is_whitespace(line, next_pos) {
-                next_pos -= 1;
-            }
         }
         ret.push_str(&line[pos..next_pos]);
         ret.push_str("\r\n ");
-- 
2.43.0


From be6e917d0543b126d9ed1e9573dbd3c3fdde375f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:14 +0000
Subject: [PATCH 19/21] fix: fold BEGIN and END lines

---
 src/components.rs        | 12 ++++++++++--
 src/parser/components.rs |  6 ++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/components.rs b/src/components.rs
index 0de7e77..b3ccf86 100644
--- a/src/components.rs
+++ b/src/components.rs
@@ -92,7 +92,11 @@ pub trait Component {
 
     /// Writes [`Component`] using [`std::fmt`].
     fn fmt_write<W: fmt::Write>(&self, out: &mut W) -> Result<(), fmt::Error> {
-        write_crlf!(out, "BEGIN:{}", self.component_kind())?;
+        write_crlf!(
+            out,
+            "{}",
+            fold_line(&format!("BEGIN:{}", self.component_kind()))
+        )?;
 
         if !self.properties().contains_key("DTSTAMP") {
             let now = Utc::now();
@@ -115,7 +119,11 @@ pub trait Component {
             component.fmt_write(out)?;
         }
 
-        write_crlf!(out, "END:{}", self.component_kind())?;
+        write_crlf!(
+            out,
+            "{}",
+            fold_line(&format!("END:{}", self.component_kind()))
+        )?;
         Ok(())
     }
 
diff --git a/src/parser/components.rs b/src/parser/components.rs
index f4a0b32..c544968 100644
--- a/src/parser/components.rs
+++ b/src/parser/components.rs
@@ -16,6 +16,8 @@ use nom::{
 use nom::error::ErrorKind;
 use uuid::Uuid;
 
+use crate::properties::fold_line;
+
 #[cfg(test)]
 use super::parameters::Parameter;
 use super::{
@@ -69,7 +71,7 @@ pub(crate) trait LikeComponent<'a> {
 
     /// Writes `Component` into a `Writer` using `std::fmt`.
     fn fmt_write<W: fmt::Write>(&'a self, out: &mut W) -> Result<(), fmt::Error> {
-        write_crlf!(out, "BEGIN:{}", self.name())?;
+        write_crlf!(out, "{}", fold_line(&format!("BEGIN:{}", self.name())))?;
 
         if self.name().to_lowercase() == "calendar" {
             if !self
@@ -97,7 +99,7 @@ pub(crate) trait LikeComponent<'a> {
             component.fmt_write(out)?;
         }
 
-        write_crlf!(out, "END:{}", self.name())?;
+        write_crlf!(out, "{}", fold_line(&format!("END:{}", self.name())))?;
         Ok(())
     }
 }
-- 
2.43.0


From 3fa7724be591716b9a19ce145128c6491155c97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 20/21] fix: add nothing to a component named CALENDAR when
 reserializing

---
 src/parser/components.rs | 22 +---------------------
 1 file changed, 1 insertion(+), 21 deletions(-)

diff --git a/src/parser/components.rs b/src/parser/components.rs
index c544968..06e63bc 100644
--- a/src/parser/components.rs
+++ b/src/parser/components.rs
@@ -1,6 +1,5 @@
 use std::{fmt, str::FromStr};
 
-use chrono::Utc;
 use nom::{
     branch::alt,
     bytes::complete::tag,
@@ -14,7 +13,6 @@ use nom::{
 
 #[cfg(test)]
 use nom::error::ErrorKind;
-use uuid::Uuid;
 
 use crate::properties::fold_line;
 
@@ -33,7 +31,7 @@ use pretty_assertions::assert_eq;
 
 use crate::{
     calendar::CalendarComponent,
-    components::{date_time::format_utc_date_time, InnerComponent, Other},
+    components::{InnerComponent, Other},
 };
 
 /// The parsing equivalent of [`crate::components::Component`]
@@ -73,24 +71,6 @@ pub(crate) trait LikeComponent<'a> {
     fn fmt_write<W: fmt::Write>(&'a self, out: &mut W) -> Result<(), fmt::Error> {
         write_crlf!(out, "{}", fold_line(&format!("BEGIN:{}", self.name())))?;
 
-        if self.name().to_lowercase() == "calendar" {
-            if !self
-                .properties()
-                .iter()
-                .any(|property| property.name == "DTSTAMP")
-            {
-                let now = Utc::now();
-                write_crlf!(out, "DTSTAMP:{}", format_utc_date_time(now))?;
-            }
-
-            if !self
-                .properties()
-                .iter()
-                .any(|property| property.name == "UID")
-            {
-                write_crlf!(out, "UID:{}", Uuid::new_v4())?;
-            }
-        }
         for property in self.properties() {
             property.fmt_write(out)?;
         }
-- 
2.43.0


From f6b9996f35f413d2da2a07999ded8a75d0edb4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:17 +0000
Subject: [PATCH 21/21] fix: a calendar field set again keeps the last value

---
 src/calendar.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/calendar.rs b/src/calendar.rs
index e1aa9af..0211ebe 100644
--- a/src/calendar.rs
+++ b/src/calendar.rs
@@ -117,6 +117,12 @@ impl Calendar {
         self
     }
 
+    /// Adds a `Property`, replaces those of the same name
+    fn set_property(&mut self, property: Property) -> &mut Self {
+        self.properties.retain(|p| p.key() != property.key());
+        self.append_property(property)
+    }
+
     /// Gets the value of a property.
     pub fn property_value(&self, key: &str) -> Option<&str> {
         Some(
@@ -145,8 +151,8 @@ impl Calendar {
     /// Set the `NAME` and `X-WR-CALNAME` `Property`s
     // TODO: where is `NAME` specified? it's not in rfc5545 or rfc2445
     pub fn name(&mut self, name: &str) -> &mut Self {
-        self.append_property(Property::new("NAME", name));
-        self.append_property(Property::new("X-WR-CALNAME", name));
+        self.set_property(Property::new("NAME", name));
+        self.set_property(Property::new("X-WR-CALNAME", name));
         self
     }
 
@@ -158,8 +164,8 @@ impl Calendar {
 
     /// Set the [`DESCRIPTION`](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.1.5) and `X-WR-CALDESC` `Property`s
     pub fn description(&mut self, description: &str) -> &mut Self {
-        self.append_property(Property::new("DESCRIPTION", description));
-        self.append_property(Property::new("X-WR-CALDESC", description));
+        self.set_property(Property::new("DESCRIPTION", description));
+        self.set_property(Property::new("X-WR-CALDESC", description));
         self
     }
 
@@ -172,8 +178,8 @@ impl Calendar {
     /// Set the `TIMEZONE-ID` and `X-WR-TIMEZONE` `Property`s
     // TODO: where is `TIMEZONE-ID` specified? it's not in rfc5545 or rfc2445
     pub fn timezone(&mut self, timezone: &str) -> &mut Self {
-        self.append_property(Property::new("TIMEZONE-ID", timezone));
-        self.append_property(Property::new("X-WR-TIMEZONE", timezone));
+        self.set_property(Property::new("TIMEZONE-ID", timezone));
+        self.set_property(Property::new("X-WR-TIMEZONE", timezone));
         self
     }
 
@@ -186,12 +192,12 @@ impl Calendar {
     /// Set the `REFRESH-INTERVAL` and `X-PUBLISHED-TTL` `Property`s
     pub fn ttl(&mut self, duration: &Duration) -> &mut Self {
         let duration_string = duration.to_string();
-        self.append_property(
+        self.set_property(
             Property::new("REFRESH-INTERVAL", &duration_string)
                 .append_parameter(Parameter::new("VALUE", "DURATION"))
                 .done(),
         );
-        self.append_property(Property::new("X-PUBLISHED-TTL", &duration_string));
+        self.set_property(Property::new("X-PUBLISHED-TTL", &duration_string));
         self
     }
 
-- 
2.43.0

