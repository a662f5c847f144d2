From 0dca7f00ca7e8e1c8cacbae3c08baa0158036e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:30 +0000
Subject: [PATCH 01/58] fix: do not panic on multi-byte text in gDay, gMonth
 and gMonthDay

---
 xsd-types/src/types/gday.rs      | 2 +-
 xsd-types/src/types/gmonth.rs    | 2 +-
 xsd-types/src/types/gmonthday.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/xsd-types/src/types/gday.rs b/xsd-types/src/types/gday.rs
index 74fcfe4..9ab6fdf 100644
--- a/xsd-types/src/types/gday.rs
+++ b/xsd-types/src/types/gday.rs
@@ -31,7 +31,7 @@ impl FromStr for GDay {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         fn parse_value(s: &str) -> Result<i32, String> {
-            if s.len() != 5 || &s[0..3] != "---" {
+            if s.len() != 5 || !s.is_ascii() || &s[0..3] != "---" {
                 return Err("bad gDay format".to_string());
             }
             let token = &s[3..5];
diff --git a/xsd-types/src/types/gmonth.rs b/xsd-types/src/types/gmonth.rs
index 2ce2ca3..4504216 100644
--- a/xsd-types/src/types/gmonth.rs
+++ b/xsd-types/src/types/gmonth.rs
@@ -31,7 +31,7 @@ impl FromStr for GMonth {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         fn parse_value(s: &str) -> Result<i32, String> {
-            if s.len() != 4 || &s[0..2] != "--" {
+            if s.len() != 4 || !s.is_ascii() || &s[0..2] != "--" {
                 return Err("bad gMonth format".to_string());
             }
             let token = &s[2..4];
diff --git a/xsd-types/src/types/gmonthday.rs b/xsd-types/src/types/gmonthday.rs
index 183c96a..acb5085 100644
--- a/xsd-types/src/types/gmonthday.rs
+++ b/xsd-types/src/types/gmonthday.rs
@@ -50,7 +50,7 @@ impl FromStr for GMonthDay {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         fn parse_value(s: &str) -> Result<(i32, i32), String> {
-            if s.len() != 7 || &s[0..2] != "--" || &s[4..5] != "-" {
+            if s.len() != 7 || !s.is_ascii() || &s[0..2] != "--" || &s[4..5] != "-" {
                 return Err("bad gMonthDay format".to_string());
             }
 
-- 
2.43.0


From 2978cada2fa44d25a74827a6cb439e4cf3a18d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:30 +0000
Subject: [PATCH 02/58] fix: do not panic on empty or multi-byte timezone text

---
 xsd-types/src/types/utils.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xsd-types/src/types/utils.rs b/xsd-types/src/types/utils.rs
index bb4dc88..5256a52 100644
--- a/xsd-types/src/types/utils.rs
+++ b/xsd-types/src/types/utils.rs
@@ -6,7 +6,10 @@ pub fn parse_timezone(s: &str) -> Result<FixedOffset, String> {
         return Ok(FixedOffset::east_opt(0).unwrap());
     }
 
-    let tokens: Vec<&str> = s[1..].split(':').collect();
+    let tokens: Vec<&str> = match s.get(1..) {
+        Some(offset) => offset.split(':').collect(),
+        None => return Err("bad timezone format".to_string()),
+    };
     if tokens.len() != 2 || tokens[0].len() != 2 || tokens[1].len() != 2 {
         return Err("bad timezone format".to_string());
     }
-- 
2.43.0


From 32a4a514c5cfbc48a1ad4b2f2aaacfc37f25c573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:30 +0000
Subject: [PATCH 03/58] fix: accept dates with a negative year

---
 xsd-types/src/types/date.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xsd-types/src/types/date.rs b/xsd-types/src/types/date.rs
index 820f930..f68c1d3 100644
--- a/xsd-types/src/types/date.rs
+++ b/xsd-types/src/types/date.rs
@@ -56,8 +56,11 @@ impl FromStr for Date {
             });
         }
 
-        if s.matches('-').count() == 3 {
-            let idx: usize = s.match_indices('-').collect::<Vec<_>>()[2].0;
+        // The leading minus of a negative year does not separate anything.
+        let sign_len = if s.starts_with('-') { 1 } else { 0 };
+        let dashes: Vec<_> = s[sign_len..].match_indices('-').collect();
+        if dashes.len() == 3 {
+            let idx: usize = sign_len + dashes[2].0;
             let date_token = &s[..idx];
             let tz_token = &s[idx..];
             return Ok(Date {
-- 
2.43.0


From e8d148b96d6413d6e25331f6e2bc511c16e36083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:30 +0000
Subject: [PATCH 04/58] fix: read and print fractional seconds of time

---
 xsd-types/src/types/time.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xsd-types/src/types/time.rs b/xsd-types/src/types/time.rs
index baa2d26..54c42c0 100644
--- a/xsd-types/src/types/time.rs
+++ b/xsd-types/src/types/time.rs
@@ -32,7 +32,7 @@ impl FromStr for Time {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         fn parse_naive_time(s: &str) -> Result<NaiveTime, String> {
-            NaiveTime::parse_from_str(s, "%H:%M:%S").map_err(|e| e.to_string())
+            NaiveTime::parse_from_str(s, "%H:%M:%S%.f").map_err(|e| e.to_string())
         }
 
         if let Some(s) = s.strip_suffix('Z') {
@@ -76,7 +76,7 @@ impl FromStr for Time {
 
 impl fmt::Display for Time {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        let fmt = StrftimeItems::new("%H:%M:%S");
+        let fmt = StrftimeItems::new("%H:%M:%S%.f");
         match self.timezone {
             Some(tz) => write!(f, "{}{}", self.value.format_with_items(fmt.clone()), tz),
             None => write!(f, "{}", self.value.format_with_items(fmt.clone())),
-- 
2.43.0


From f62bb483e088f7eb062076e133a59d78cc97614b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:30 +0000
Subject: [PATCH 05/58] fix: accept -0 as nonNegativeInteger

---
 xsd-types/src/types/non_negative_integer.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/xsd-types/src/types/non_negative_integer.rs b/xsd-types/src/types/non_negative_integer.rs
index 044781a..c135b2d 100644
--- a/xsd-types/src/types/non_negative_integer.rs
+++ b/xsd-types/src/types/non_negative_integer.rs
@@ -1,6 +1,6 @@
 use std::{fmt, str::FromStr};
 
-use num_bigint::{BigUint, ToBigUint};
+use num_bigint::{BigInt, BigUint, ToBigUint};
 use xsd_macro_utils::UtilsDefaultSerde;
 
 // https://www.w3.org/TR/xmlschema-2/#nonNegativeInteger
@@ -23,11 +23,11 @@ impl FromStr for NonNegativeInteger {
     type Err = String;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let value = BigUint::from_str(s).map_err(|e| e.to_string())?;
-        if value < 0.to_biguint().unwrap() {
-            Err("Bad value for NonNegativeInteger".to_string())
-        } else {
-            Ok(NonNegativeInteger(value))
+        // "-0" is a valid literal, so the sign can only be judged after parsing.
+        let value = BigInt::from_str(s).map_err(|e| e.to_string())?;
+        match value.to_biguint() {
+            Some(value) => Ok(NonNegativeInteger(value)),
+            None => Err("Bad value for NonNegativeInteger".to_string()),
         }
     }
 }
-- 
2.43.0


From ee1a5ad6e0d61012817540a565e492c25e5bd60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:30 +0000
Subject: [PATCH 06/58] fix: handle the smallest year in gYear and gYearMonth

---
 xsd-types/src/types/gyear.rs      | 24 +++++++++++-------------
 xsd-types/src/types/gyearmonth.rs | 25 ++++++++++++-------------
 2 files changed, 23 insertions(+), 26 deletions(-)

diff --git a/xsd-types/src/types/gyear.rs b/xsd-types/src/types/gyear.rs
index 7943e8b..106227e 100644
--- a/xsd-types/src/types/gyear.rs
+++ b/xsd-types/src/types/gyear.rs
@@ -31,27 +31,25 @@ impl FromStr for GYear {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         if let Some(s) = s.strip_prefix('-') {
-            let mut gyear = parse_str_positive(s)?;
-            gyear.value *= -1;
-            return Ok(gyear);
+            return parse_unsigned(s, "-");
         }
-        parse_str_positive(s)
+        parse_unsigned(s, "")
     }
 }
 
-fn parse_str_positive(s: &str) -> Result<GYear, String> {
-    fn parse_value(s: &str) -> Result<i32, String> {
+fn parse_unsigned(s: &str, sign: &str) -> Result<GYear, String> {
+    fn parse_value(s: &str, sign: &str) -> Result<i32, String> {
         if s.len() < 4 {
             return Err("bad gYear format: to short".to_string());
         }
         if !s.chars().all(|c| c.is_ascii_digit()) {
             return Err("bad gYear format".to_string());
         }
-        s.parse::<i32>().map_err(|e| e.to_string())
+        format!("{}{}", sign, s).parse::<i32>().map_err(|e| e.to_string())
     }
 
     if let Some(s) = s.strip_suffix('Z') {
-        return GYear::new(parse_value(s)?, Some(FixedOffset::east_opt(0).unwrap()));
+        return GYear::new(parse_value(s, sign)?, Some(FixedOffset::east_opt(0).unwrap()));
     }
 
     if s.contains('+') {
@@ -62,7 +60,7 @@ fn parse_str_positive(s: &str) -> Result<GYear, String> {
         let idx: usize = s.match_indices('+').collect::<Vec<_>>()[0].0;
         let value_token = &s[..idx];
         let tz_token = &s[idx..];
-        return GYear::new(parse_value(value_token)?, Some(parse_timezone(tz_token)?));
+        return GYear::new(parse_value(value_token, sign)?, Some(parse_timezone(tz_token)?));
     }
 
     if s.contains('-') {
@@ -73,10 +71,10 @@ fn parse_str_positive(s: &str) -> Result<GYear, String> {
         let idx: usize = s.match_indices('-').collect::<Vec<_>>()[0].0;
         let value_token = &s[..idx];
         let tz_token = &s[idx..];
-        return GYear::new(parse_value(value_token)?, Some(parse_timezone(tz_token)?));
+        return GYear::new(parse_value(value_token, sign)?, Some(parse_timezone(tz_token)?));
     }
 
-    GYear::new(parse_value(s)?, None)
+    GYear::new(parse_value(s, sign)?, None)
 }
 
 impl fmt::Display for GYear {
@@ -88,8 +86,8 @@ impl fmt::Display for GYear {
             }
         } else {
             match self.timezone {
-                Some(tz) => write!(f, "-{:04}{}", -self.value, tz),
-                None => write!(f, "-{:04}", -self.value),
+                Some(tz) => write!(f, "-{:04}{}", self.value.unsigned_abs(), tz),
+                None => write!(f, "-{:04}", self.value.unsigned_abs()),
             }
         }
     }
diff --git a/xsd-types/src/types/gyearmonth.rs b/xsd-types/src/types/gyearmonth.rs
index 38a3a09..ba6b99f 100644
--- a/xsd-types/src/types/gyearmonth.rs
+++ b/xsd-types/src/types/gyearmonth.rs
@@ -45,16 +45,14 @@ impl FromStr for GYearMonth {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         if let Some(s) = s.strip_prefix('-') {
-            let mut gyearmonth = parse_str_positive(s)?;
-            gyearmonth.year *= -1;
-            return Ok(gyearmonth);
+            return parse_unsigned(s, "-");
         }
-        parse_str_positive(s)
+        parse_unsigned(s, "")
     }
 }
 
-fn parse_str_positive(s: &str) -> Result<GYearMonth, String> {
-    fn parse_value(s: &str) -> Result<(i32, i32), String> {
+fn parse_unsigned(s: &str, sign: &str) -> Result<GYearMonth, String> {
+    fn parse_value(s: &str, sign: &str) -> Result<(i32, i32), String> {
         if s.matches('-').count() != 1 {
             return Err("bad gYearMonth format".to_string());
         }
@@ -69,7 +67,8 @@ fn parse_str_positive(s: &str) -> Result<GYearMonth, String> {
         if !year_token.chars().all(|c| c.is_ascii_digit()) {
             return Err("bad year format within gYearMonth".to_string());
         }
-        let year = year_token.parse::<i32>().map_err(|e| e.to_string())?;
+        let year =
+            format!("{}{}", sign, year_token).parse::<i32>().map_err(|e| e.to_string())?;
 
         if !month_token.chars().all(|c| c.is_ascii_digit()) {
             return Err("bad month format within gYearMonth".to_string());
@@ -80,7 +79,7 @@ fn parse_str_positive(s: &str) -> Result<GYearMonth, String> {
     }
 
     if let Some(s) = s.strip_suffix('Z') {
-        let (year, month) = parse_value(s)?;
+        let (year, month) = parse_value(s, sign)?;
         return GYearMonth::new(year, month, Some(FixedOffset::east_opt(0).unwrap()));
     }
 
@@ -92,7 +91,7 @@ fn parse_str_positive(s: &str) -> Result<GYearMonth, String> {
         let idx: usize = s.match_indices('+').collect::<Vec<_>>()[0].0;
         let value_token = &s[..idx];
         let tz_token = &s[idx..];
-        let (year, month) = parse_value(value_token)?;
+        let (year, month) = parse_value(value_token, sign)?;
         return GYearMonth::new(year, month, Some(parse_timezone(tz_token)?));
     }
 
@@ -100,11 +99,11 @@ fn parse_str_positive(s: &str) -> Result<GYearMonth, String> {
         let idx: usize = s.match_indices('-').collect::<Vec<_>>()[1].0;
         let value_token = &s[..idx];
         let tz_token = &s[idx..];
-        let (year, month) = parse_value(value_token)?;
+        let (year, month) = parse_value(value_token, sign)?;
         return GYearMonth::new(year, month, Some(parse_timezone(tz_token)?));
     }
 
-    let (year, month) = parse_value(s)?;
+    let (year, month) = parse_value(s, sign)?;
     GYearMonth::new(year, month, None)
 }
 
@@ -117,8 +116,8 @@ impl fmt::Display for GYearMonth {
             }
         } else {
             match self.timezone {
-                Some(tz) => write!(f, "-{:04}-{:02}{}", -self.year, self.month, tz),
-                None => write!(f, "-{:04}-{:02}", -self.year, self.month),
+                Some(tz) => write!(f, "-{:04}-{:02}{}", self.year.unsigned_abs(), self.month, tz),
+                None => write!(f, "-{:04}-{:02}", self.year.unsigned_abs(), self.month),
             }
         }
     }
-- 
2.43.0


From 894a301aad9b723663fc64eb7287ae672a5f32e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:30 +0000
Subject: [PATCH 07/58] fix: refuse dateTime literals that are not XSD literals

---
 xsd-types/src/types/datetime.rs      | 19 ++++++++++++++++++-
 xsd-types/src/types/datetimestamp.rs |  4 ++--
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/xsd-types/src/types/datetime.rs b/xsd-types/src/types/datetime.rs
index 5bbddbb..e920ecc 100644
--- a/xsd-types/src/types/datetime.rs
+++ b/xsd-types/src/types/datetime.rs
@@ -35,13 +35,30 @@ impl FromStr for DateTime {
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let tz_provided = s.ends_with('Z') || s.contains('+') || s.matches('-').count() == 3;
         let s_with_timezone = if tz_provided { s.to_string() } else { format!("{}Z", s) };
-        match CDateTime::parse_from_rfc3339(&s_with_timezone) {
+        match parse_xsd_datetime(&s_with_timezone) {
             Ok(cdt) => Ok(DateTime { value: cdt }),
             Err(err) => Err(err),
         }
     }
 }
 
+// `parse_from_rfc3339` is more liberal than XSD: it also takes lowercase or blank separators, the
+// Unicode minus sign and offsets above 14:00.
+pub(crate) fn parse_xsd_datetime(s: &str) -> Result<CDateTime<FixedOffset>, ParseError> {
+    const MAX_OFFSET_SECS: i32 = 14 * 60 * 60;
+
+    if !s.chars().all(|c| c.is_ascii_digit() || "-+:.TZ".contains(c)) {
+        return CDateTime::parse_from_rfc3339("");
+    }
+
+    let value = CDateTime::parse_from_rfc3339(s)?;
+    if value.offset().local_minus_utc().abs() > MAX_OFFSET_SECS {
+        return CDateTime::parse_from_rfc3339("");
+    }
+
+    Ok(value)
+}
+
 impl fmt::Display for DateTime {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         write!(f, "{}", self.value.to_rfc3339())
diff --git a/xsd-types/src/types/datetimestamp.rs b/xsd-types/src/types/datetimestamp.rs
index a4bc81f..b0f8199 100644
--- a/xsd-types/src/types/datetimestamp.rs
+++ b/xsd-types/src/types/datetimestamp.rs
@@ -3,7 +3,7 @@ use std::{fmt, str::FromStr};
 use chrono::{format::ParseError, DateTime as CDateTime, FixedOffset};
 use xsd_macro_utils::UtilsDefaultSerde;
 
-use crate::types::datetime::DateTime;
+use crate::types::datetime::{parse_xsd_datetime, DateTime};
 
 // The only difference from DateTime is that the time zone expression is required at the end of the value.
 #[derive(Default, Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
@@ -25,7 +25,7 @@ impl FromStr for DateTimeStamp {
     type Err = ParseError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        match CDateTime::parse_from_rfc3339(s) {
+        match parse_xsd_datetime(s) {
             Ok(cdt) => Ok(DateTimeStamp::from_chrono_datetime(cdt)),
             Err(err) => Err(err),
         }
-- 
2.43.0


From 5a39519c1ebe4ca724c2abc8cea4f7e9300a7f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:08 +0000
Subject: [PATCH 08/58] fix: print decimal without an exponent

---
 xsd-types/src/types/decimal.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/xsd-types/src/types/decimal.rs b/xsd-types/src/types/decimal.rs
index c5fcd6c..9fd06a5 100644
--- a/xsd-types/src/types/decimal.rs
+++ b/xsd-types/src/types/decimal.rs
@@ -1,6 +1,6 @@
 use std::{fmt, str::FromStr};
 
-use bigdecimal::{BigDecimal, ParseBigDecimalError};
+use bigdecimal::{num_bigint::Sign, BigDecimal, ParseBigDecimalError};
 use xsd_macro_utils::UtilsDefaultSerde;
 
 #[derive(Default, Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
@@ -26,7 +26,22 @@ impl FromStr for Decimal {
 
 impl fmt::Display for Decimal {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        write!(f, "{}", self.0)
+        // `BigDecimal` switches to the exponential notation for some scales, XSD does not have it.
+        let (unscaled, scale) = self.0.as_bigint_and_exponent();
+        let sign = if unscaled.sign() == Sign::Minus { "-" } else { "" };
+        let mut digits = unscaled.magnitude().to_str_radix(10);
+
+        if scale > 0 {
+            let scale = scale as usize;
+            if digits.len() <= scale {
+                digits.insert_str(0, &"0".repeat(scale + 1 - digits.len()));
+            }
+            digits.insert(digits.len() - scale, '.');
+        } else if unscaled.sign() != Sign::NoSign {
+            digits.push_str(&"0".repeat(scale.unsigned_abs() as usize));
+        }
+
+        write!(f, "{}{}", sign, digits)
     }
 }
 
-- 
2.43.0


From 64c1942d4cc970c41a211a6552dd44ee1404868f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:08 +0000
Subject: [PATCH 09/58] fix: refuse an exponent in a decimal literal

---
 xsd-types/src/types/decimal.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xsd-types/src/types/decimal.rs b/xsd-types/src/types/decimal.rs
index 9fd06a5..2157309 100644
--- a/xsd-types/src/types/decimal.rs
+++ b/xsd-types/src/types/decimal.rs
@@ -20,6 +20,12 @@ impl FromStr for Decimal {
     type Err = ParseBigDecimalError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
+        // `BigDecimal` reads more than XSD has: exponents, underscores, a sign after the point.
+        let unsigned = s.strip_prefix(|c| c == '+' || c == '-').unwrap_or(s);
+        if !unsigned.chars().all(|c| c.is_ascii_digit() || c == '.') {
+            return Err(ParseBigDecimalError::Other("Bad character in a decimal literal".to_string()));
+        }
+
         Ok(Decimal(BigDecimal::from_str(s)?))
     }
 }
-- 
2.43.0


From 6090b61d7d20ae499f67971da9249432e7709558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:08 +0000
Subject: [PATCH 10/58] fix: refuse to convert a duration that does not fit the
 time span

---
 xsd-types/src/types/duration.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/xsd-types/src/types/duration.rs b/xsd-types/src/types/duration.rs
index e352b9c..10d0bc3 100644
--- a/xsd-types/src/types/duration.rs
+++ b/xsd-types/src/types/duration.rs
@@ -20,10 +20,21 @@ impl Duration {
         if self.years > 0 || self.months > 0 {
             Err("Duration with months or years require a starting date to be converted".into())
         } else {
+            if self.seconds >= u64::MAX as f64 {
+                return Err("Duration is too long to be converted".into());
+            }
             let secs = self.seconds as u64;
 
             let nanos = ((self.seconds - secs as f64) * 1e9) as u32;
-            let secs = secs + 60 * (self.minutes + 60 * (self.hours + 24 * self.days));
+            let secs = self
+                .days
+                .checked_mul(24)
+                .and_then(|hours| hours.checked_add(self.hours))
+                .and_then(|hours| hours.checked_mul(60))
+                .and_then(|minutes| minutes.checked_add(self.minutes))
+                .and_then(|minutes| minutes.checked_mul(60))
+                .and_then(|seconds| seconds.checked_add(secs))
+                .ok_or("Duration is too long to be converted")?;
 
             Ok(std::time::Duration::new(secs, nanos))
         }
-- 
2.43.0


From f4a243d5b137e260342b1f245675fac7577e6428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:08 +0000
Subject: [PATCH 11/58] fix: refuse overlong and dangling numbers in a duration

---
 xsd-types/src/types/duration.rs | 44 ++++++++++++++-------------------
 1 file changed, 19 insertions(+), 25 deletions(-)

diff --git a/xsd-types/src/types/duration.rs b/xsd-types/src/types/duration.rs
index 10d0bc3..fca1499 100644
--- a/xsd-types/src/types/duration.rs
+++ b/xsd-types/src/types/duration.rs
@@ -74,9 +74,12 @@ impl FromStr for Duration {
                 return Err("Bad order of duration components".into());
             }
 
-            *component = context.number;
+            *component = context
+                .number
+                .parse()
+                .map_err(|_| format!("The value specified for {} is too big", name))?;
             context.last_filled_component = idx;
-            context.number = 0;
+            context.number.clear();
             context.is_number_empty = true;
 
             Ok(())
@@ -90,7 +93,7 @@ impl FromStr for Duration {
                 return Err("No value is specified for seconds, so 'S' must not be present");
             }
 
-            if context.is_dot_found && context.denom == 1 {
+            if context.is_dot_found && context.number.ends_with('.') {
                 return Err("At least one digit must follow the decimal point if it appears");
             }
 
@@ -98,10 +101,14 @@ impl FromStr for Duration {
                 return Err("Bad order of duration components");
             }
 
-            *seconds = context.number as f64 + context.numer as f64 / context.denom as f64;
+            *seconds = match context.number.parse::<f64>() {
+                Ok(value) if value.is_finite() => value,
+                _ => return Err("The value specified for seconds is too big"),
+            };
             context.last_filled_component = 6;
-            context.number = 0;
+            context.number.clear();
             context.is_number_empty = true;
+            context.is_dot_found = false;
 
             Ok(())
         }
@@ -134,7 +141,7 @@ impl FromStr for Duration {
                         return Err("Symbol 'T' occurred twice".into());
                     }
 
-                    if context.number > 0 {
+                    if !context.is_number_empty {
                         return Err("Symbol 'T' occurred after a number".into());
                     }
 
@@ -180,28 +187,20 @@ impl FromStr for Duration {
                     }
 
                     context.is_dot_found = true;
+                    context.number.push('.');
                 }
                 digit => {
                     if !digit.is_ascii_digit() {
                         return Err("Incorrect character occurred".into());
                     }
 
-                    if context.is_dot_found {
-                        context.numer *= 10;
-                        context.numer +=
-                            digit.to_digit(10).expect("error converting a digit") as u64;
-                        context.denom *= 10;
-                    } else {
-                        context.number *= 10;
-                        context.number +=
-                            digit.to_digit(10).expect("error converting a digit") as u64;
-                        context.is_number_empty = false;
-                    }
+                    context.number.push(digit);
+                    context.is_number_empty = false;
                 }
             }
         }
 
-        if context.number > 0 {
+        if !context.is_number_empty {
             return Err("Number at the end of the string".into());
         }
 
@@ -268,13 +267,10 @@ struct ParsingContext {
     is_t_found: bool,           // Is 'T' delimiter occurred.
     last_filled_component: i32, // 1 to 6 for Year to Minute.
 
-    number: u64,
+    number: String, // Text of the current number, with the dot if there is one.
     is_number_empty: bool,
 
     is_dot_found: bool,
-    // Numerator and denominator of seconds fraction part.
-    numer: u64,
-    denom: u64,
 }
 
 impl ParsingContext {
@@ -284,12 +280,10 @@ impl ParsingContext {
             is_t_found: false,
             last_filled_component: 0,
 
-            number: 0,
+            number: String::new(),
             is_number_empty: true,
 
             is_dot_found: false,
-            numer: 0,
-            denom: 1,
         }
     }
 }
-- 
2.43.0


From ede9b52b914685da2ba1e342ca3e15ae8d5703e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:21 +0000
Subject: [PATCH 12/58] fix: keep the commented-out alias a comment when it has
 documentation

The documentation was put between the slashes and the alias, so the first
documentation line ended the comment and the alias became code.
---
 xsd-parser/src/generator/alias.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsd-parser/src/generator/alias.rs b/xsd-parser/src/generator/alias.rs
index 7908df2..8ef89f9 100644
--- a/xsd-parser/src/generator/alias.rs
+++ b/xsd-parser/src/generator/alias.rs
@@ -3,7 +3,7 @@ use crate::{generator::Generator, parser::types::Alias};
 pub trait AliasGenerator {
     fn generate(&self, entity: &Alias, gen: &Generator) -> String {
         format!(
-            "//{comment} pub type {name} = {original};\n",
+            "{comment}// pub type {name} = {original};\n",
             comment = self.format_comment(entity.comment.as_deref(), gen),
             name = self.format_name(entity.name.as_str(), gen),
             original = self.format_original_type(entity.original.as_str(), gen)
-- 
2.43.0


From c878de33b74f184c09bc8515ebbf6cd09d4e7763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:22 +0000
Subject: [PATCH 13/58] fix: an element with minOccurs="0" and maxOccurs="1" is
 optional

---
 xsd-parser/src/parser/element.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsd-parser/src/parser/element.rs b/xsd-parser/src/parser/element.rs
index 19d5cbd..6118d7d 100644
--- a/xsd-parser/src/parser/element.rs
+++ b/xsd-parser/src/parser/element.rs
@@ -150,7 +150,7 @@ pub fn element_modifier(node: &Node) -> TypeModifier {
                 if val > 1 {
                     TypeModifier::Array
                 } else {
-                    TypeModifier::None
+                    TypeModifier::Option
                 }
             }
         },
-- 
2.43.0


From 90a42d12f1ee1c7fa7bd03a54350500ccdbab64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:23 +0000
Subject: [PATCH 14/58] fix: read occurrence bounds with blanks around them or
 of any size

---
 xsd-parser/src/parser/xsd_elements.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/xsd-parser/src/parser/xsd_elements.rs b/xsd-parser/src/parser/xsd_elements.rs
index bbeda21..7325078 100644
--- a/xsd-parser/src/parser/xsd_elements.rs
+++ b/xsd-parser/src/parser/xsd_elements.rs
@@ -211,15 +211,25 @@ pub enum MaxOccurs {
 }
 
 pub fn min_occurs(node: &roxmltree::Node) -> MinOccurs {
-    node.attribute(attribute::MIN_OCCURS).and_then(|v| v.parse::<usize>().ok()).unwrap_or(1)
+    node.attribute(attribute::MIN_OCCURS).and_then(parse_bound).unwrap_or(1)
 }
 
 pub fn max_occurs(node: &roxmltree::Node) -> MaxOccurs {
     match node.attribute(attribute::MAX_OCCURS) {
-        Some(s) => match s {
+        Some(s) => match s.trim() {
             "unbounded" => MaxOccurs::Unbounded,
-            s => s.parse::<usize>().ok().map(MaxOccurs::Bounded).unwrap_or(MaxOccurs::None),
+            s => parse_bound(s).map(MaxOccurs::Bounded).unwrap_or(MaxOccurs::None),
         },
         None => MaxOccurs::None,
     }
 }
+
+// Any nonNegativeInteger is allowed, so a bound may not fit usize.
+fn parse_bound(s: &str) -> Option<usize> {
+    use std::num::IntErrorKind::PosOverflow;
+    match s.trim().parse::<usize>() {
+        Ok(v) => Some(v),
+        Err(e) if *e.kind() == PosOverflow => Some(usize::MAX),
+        Err(_) => None,
+    }
+}
-- 
2.43.0


From 4f99ea3c8aba55d017396e4ade5e647e0284e325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:24 +0000
Subject: [PATCH 15/58] fix: no enumeration with values that share or lack a
 variant name
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Values such as "-", "é" or "-1" next to "1" gave empty or equal variant
names, that is code which does not compile. Such types are wrappers now.
---
 xsd-parser/src/parser/restriction.rs | 37 +++++++++++++++++-----------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/xsd-parser/src/parser/restriction.rs b/xsd-parser/src/parser/restriction.rs
index 76eb173..f72c507 100644
--- a/xsd-parser/src/parser/restriction.rs
+++ b/xsd-parser/src/parser/restriction.rs
@@ -1,19 +1,22 @@
-use std::cell::RefCell;
+use std::{cell::RefCell, collections::HashSet};
 
 use roxmltree::Node;
 
-use crate::parser::{
-    constants::tag,
-    node_parser::parse_node,
-    types::{
-        Enum, EnumCase, EnumSource, Facet, RsEntity, Struct, StructField, StructFieldSource,
-        TupleStruct,
+use crate::{
+    generator::default::default_format_type,
+    parser::{
+        constants::tag,
+        node_parser::parse_node,
+        types::{
+            Enum, EnumCase, EnumSource, Facet, RsEntity, Struct, StructField, StructFieldSource,
+            TupleStruct,
+        },
+        utils::{
+            attribute_groups_to_aliases, attributes_to_fields, get_base, get_documentation,
+            get_parent_name,
+        },
+        xsd_elements::{ElementType, FacetType, RestrictionType, XsdNode},
     },
-    utils::{
-        attribute_groups_to_aliases, attributes_to_fields, get_base, get_documentation,
-        get_parent_name,
-    },
-    xsd_elements::{ElementType, FacetType, RestrictionType, XsdNode},
 };
 
 const AVAILABLE_CONTENT_TYPES: [ElementType; 7] = [
@@ -127,14 +130,20 @@ fn cases(facets: &[Facet]) -> Vec<EnumCase> {
 }
 
 fn is_simple_enumerations(node: &Node) -> bool {
+    let mut names = HashSet::new();
     node.children()
         .filter(|n| matches!(n.xsd_type(), ElementType::Facet(FacetType::Enumeration(_))))
-        .all(|n| is_simple_enumeration(&n))
+        .all(|n| is_simple_enumeration(&n) && names.insert(case_name(&n)))
+}
+
+fn case_name(node: &Node) -> String {
+    default_format_type(node.attr_value().unwrap_or_default(), &None).into()
 }
 
 fn is_simple_enumeration(node: &Node) -> bool {
     let val = node.attr_value().expect("Value required for xsd:enumeration");
-    !val.is_empty() && val.chars().all(|c| c.is_alphanumeric() || c == '-')
+    val.chars().any(|c| c.is_ascii_alphanumeric())
+        && val.chars().all(|c| c.is_ascii_alphanumeric() || c == '-')
 }
 
 #[cfg(test)]
-- 
2.43.0


From 3c546c9dcf663ad1a26386ac6bd215f92331f92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:25 +0000
Subject: [PATCH 16/58] fix: "try" is a keyword too

---
 wsdl-parser/src/generator/mod.rs  | 1 +
 xsd-parser/src/generator/utils.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/wsdl-parser/src/generator/mod.rs b/wsdl-parser/src/generator/mod.rs
index fe1858f..e9a8346 100644
--- a/wsdl-parser/src/generator/mod.rs
+++ b/wsdl-parser/src/generator/mod.rs
@@ -178,6 +178,7 @@ const RS_KEYWORDS: &[&str] = &[
     "super",
     "trait",
     "true",
+    "try",
     "type",
     "typeof",
     "unsafe",
diff --git a/xsd-parser/src/generator/utils.rs b/xsd-parser/src/generator/utils.rs
index ed94780..308444c 100644
--- a/xsd-parser/src/generator/utils.rs
+++ b/xsd-parser/src/generator/utils.rs
@@ -169,6 +169,7 @@ const RS_KEYWORDS: &[&str] = &[
     "super",
     "trait",
     "true",
+    "try",
     "type",
     "typeof",
     "unsafe",
-- 
2.43.0


From 239b1c93c42067eab543684ddb0537b4ed2336ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:27 +0000
Subject: [PATCH 17/58] fix: generating code leaves the parsed schema unchanged

Each run prefixed the inline field types with their module once more.
---
 xsd-parser/src/generator/struct.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xsd-parser/src/generator/struct.rs b/xsd-parser/src/generator/struct.rs
index af01513..984151f 100644
--- a/xsd-parser/src/generator/struct.rs
+++ b/xsd-parser/src/generator/struct.rs
@@ -21,15 +21,15 @@ pub trait StructGenerator {
     fn fields(&self, entity: &Struct, gen: &Generator) -> String {
         let mod_name = self.mod_name(entity, gen);
 
-        entity.fields.borrow_mut().iter_mut().for_each(|f| {
+        let mut fields = entity.fields.borrow().clone();
+
+        fields.iter_mut().for_each(|f| {
             if !f.subtypes.is_empty() {
                 f.type_name = format!("{}::{}", mod_name, f.type_name)
             }
         });
 
-        let fields = entity
-            .fields
-            .borrow()
+        let fields = fields
             .iter()
             .map(|f| gen.struct_field_gen().generate(f, gen))
             .filter(|s| !s.is_empty())
-- 
2.43.0


From 806c266c4b595dbd6fe66506231acefabbcb4773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:28 +0000
Subject: [PATCH 18/58] fix: split union members at any blank

---
 xsd-parser/src/parser/union.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/xsd-parser/src/parser/union.rs b/xsd-parser/src/parser/union.rs
index 4c47ff6..fc3d48d 100644
--- a/xsd-parser/src/parser/union.rs
+++ b/xsd-parser/src/parser/union.rs
@@ -56,8 +56,7 @@ pub fn parse_union(union: &Node) -> RsEntity {
 
 fn create_enum_cases(member_types: &str) -> Vec<EnumCase> {
     member_types
-        .split(' ')
-        .filter(|s| !s.is_empty())
+        .split_whitespace()
         .map(|mt| EnumCase {
             name: mt.to_string(),
             type_name: Some(mt.to_string()),
-- 
2.43.0


From 13e1fc4902f9e59e140f799ba2ed75cf3bb73034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:29 +0000
Subject: [PATCH 19/58] fix: prefer the prefix of the target namespace to its
 default declaration

With both declared, and the default one first, references by prefix were
taken for references into another namespace.
---
 xsd-parser/src/parser/utils.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xsd-parser/src/parser/utils.rs b/xsd-parser/src/parser/utils.rs
index 4f35e01..85798bc 100644
--- a/xsd-parser/src/parser/utils.rs
+++ b/xsd-parser/src/parser/utils.rs
@@ -11,7 +11,10 @@ use crate::parser::{
 
 pub fn target_namespace<'a, 'input>(node: &Node<'a, 'input>) -> Option<&'a Namespace<'input>> {
     match node.attribute(attribute::TARGET_NAMESPACE) {
-        Some(tn) => node.namespaces().find(|a| a.uri() == tn),
+        Some(tn) => node
+            .namespaces()
+            .find(|a| a.uri() == tn && a.name().is_some())
+            .or_else(|| node.namespaces().find(|a| a.uri() == tn)),
         None => None,
     }
 }
-- 
2.43.0


From e0d8d0725b6989b77ec81899a9a5d1ad3c8d49fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:53 +0000
Subject: [PATCH 20/58] fix: keep the module of an inline type that is named
 like the target prefix

---
 xsd-parser/src/generator/default.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xsd-parser/src/generator/default.rs b/xsd-parser/src/generator/default.rs
index 35bae27..b80d793 100644
--- a/xsd-parser/src/generator/default.rs
+++ b/xsd-parser/src/generator/default.rs
@@ -31,7 +31,8 @@ pub fn default_format_type(type_name: &str, target_ns: &Option<Namespace>) -> Co
 
     let res = match (prefix, option_tns) {
         (Some(ns), Some(tns)) => {
-            if ns == tns {
+            // A name after "::" is a path into a module, not a qualified name
+            if ns == tns && !name.starts_with(':') {
                 pascalized_name
             } else {
                 qname(ns)
-- 
2.43.0


From ac81bb35df0daebf2d13dce8074e5fcf908f2c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:55 +0000
Subject: [PATCH 21/58] fix: a type named like a built-in type keeps its name

With XSD as the default namespace a type named "date" was defined as
"pub struct xs::Date".
---
 xsd-parser/src/generator/alias.rs        | 2 +-
 xsd-parser/src/generator/base.rs         | 5 +++++
 xsd-parser/src/generator/enum.rs         | 2 +-
 xsd-parser/src/generator/struct.rs       | 2 +-
 xsd-parser/src/generator/tuple_struct.rs | 2 +-
 5 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/xsd-parser/src/generator/alias.rs b/xsd-parser/src/generator/alias.rs
index 8ef89f9..7084178 100644
--- a/xsd-parser/src/generator/alias.rs
+++ b/xsd-parser/src/generator/alias.rs
@@ -15,7 +15,7 @@ pub trait AliasGenerator {
     }
 
     fn format_name(&self, name: &str, gen: &Generator) -> String {
-        gen.base().format_type_name(name, gen).into()
+        gen.base().format_definition_name(name, gen).into()
     }
 
     fn format_original_type(&self, name: &str, gen: &Generator) -> String {
diff --git a/xsd-parser/src/generator/base.rs b/xsd-parser/src/generator/base.rs
index d66ab5d..4885d64 100644
--- a/xsd-parser/src/generator/base.rs
+++ b/xsd-parser/src/generator/base.rs
@@ -27,6 +27,11 @@ pub trait BaseGenerator {
         default_format_type(type_name, &gen.target_ns.borrow())
     }
 
+    /// Name of a definition of the schema, which is never a built-in type
+    fn format_definition_name(&self, name: &str, gen: &Generator) -> Cow<'_, str> {
+        default_format_type(name, &gen.target_ns.borrow())
+    }
+
     fn format_name(&self, name: &str) -> Cow<'_, str> {
         Cow::Owned(default_format_name(name))
     }
diff --git a/xsd-parser/src/generator/enum.rs b/xsd-parser/src/generator/enum.rs
index 449d1b7..aab091c 100644
--- a/xsd-parser/src/generator/enum.rs
+++ b/xsd-parser/src/generator/enum.rs
@@ -57,7 +57,7 @@ pub trait EnumGenerator {
     }
 
     fn get_name(&self, entity: &Enum, gen: &Generator) -> String {
-        gen.base().format_type_name(entity.name.as_str(), gen).into()
+        gen.base().format_definition_name(entity.name.as_str(), gen).into()
     }
 
     fn macros(&self, entity: &Enum, gen: &Generator) -> Cow<'static, str> {
diff --git a/xsd-parser/src/generator/struct.rs b/xsd-parser/src/generator/struct.rs
index 984151f..6f9e1d2 100644
--- a/xsd-parser/src/generator/struct.rs
+++ b/xsd-parser/src/generator/struct.rs
@@ -75,7 +75,7 @@ pub trait StructGenerator {
     }
 
     fn get_type_name(&self, entity: &Struct, gen: &Generator) -> String {
-        gen.base().format_type_name(entity.name.as_str(), gen).into()
+        gen.base().format_definition_name(entity.name.as_str(), gen).into()
     }
 
     fn macros(&self, _entity: &Struct, gen: &Generator) -> Cow<'static, str> {
diff --git a/xsd-parser/src/generator/tuple_struct.rs b/xsd-parser/src/generator/tuple_struct.rs
index c340eca..b58368c 100644
--- a/xsd-parser/src/generator/tuple_struct.rs
+++ b/xsd-parser/src/generator/tuple_struct.rs
@@ -35,7 +35,7 @@ pub trait TupleStructGenerator {
     }
 
     fn get_name(&self, entity: &TupleStruct, gen: &Generator) -> String {
-        gen.base().format_type_name(entity.name.as_str(), gen).into()
+        gen.base().format_definition_name(entity.name.as_str(), gen).into()
     }
 
     fn macros(&self, _entity: &TupleStruct, _gen: &Generator) -> Cow<'static, str> {
-- 
2.43.0


From 11ddd0cac7b6e369494528f271b8d50147c26c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:56 +0000
Subject: [PATCH 22/58] fix: only a field of the enclosing type itself is
 recursive

Any type whose name ended with the name of the enclosing type, such as
"SubItem" in "Item", made the field a vector.
---
 xsd-parser/src/parser/all.rs      |  4 ++--
 xsd-parser/src/parser/sequence.rs |  4 ++--
 xsd-parser/src/parser/utils.rs    | 25 +++++++++++++++++++++++++
 3 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/xsd-parser/src/parser/all.rs b/xsd-parser/src/parser/all.rs
index 04d3e9b..72dae96 100644
--- a/xsd-parser/src/parser/all.rs
+++ b/xsd-parser/src/parser/all.rs
@@ -5,7 +5,7 @@ use roxmltree::Node;
 use crate::parser::{
     node_parser::parse_node,
     types::{RsEntity, Struct, StructField, TypeModifier},
-    utils::{enum_to_field, get_documentation, get_parent_name},
+    utils::{enum_to_field, get_documentation, get_parent_name, is_enclosing_type},
     xsd_elements::{ElementType, XsdNode},
 };
 
@@ -26,7 +26,7 @@ fn elements_to_fields(choice: &Node, parent_name: &str) -> Vec<StructField> {
         .filter(|n| n.is_element() && n.xsd_type() != ElementType::Annotation)
         .map(|n| match parse_node(&n, choice) {
             RsEntity::StructField(mut sf) => {
-                if sf.type_name.ends_with(parent_name) {
+                if sf.subtypes.is_empty() && is_enclosing_type(&n, &sf.type_name) {
                     sf.type_modifiers.push(TypeModifier::Recursive)
                 }
                 sf
diff --git a/xsd-parser/src/parser/sequence.rs b/xsd-parser/src/parser/sequence.rs
index 48b8a19..784f845 100644
--- a/xsd-parser/src/parser/sequence.rs
+++ b/xsd-parser/src/parser/sequence.rs
@@ -5,7 +5,7 @@ use roxmltree::Node;
 use crate::parser::{
     node_parser::parse_node,
     types::{RsEntity, Struct, StructField, TypeModifier},
-    utils::{enum_to_field, get_documentation, get_parent_name},
+    utils::{enum_to_field, get_documentation, get_parent_name, is_enclosing_type},
     xsd_elements::{ElementType, XsdNode},
 };
 
@@ -26,7 +26,7 @@ fn elements_to_fields(sequence: &Node, parent_name: &str) -> Vec<StructField> {
         .filter(|n| n.is_element() && n.xsd_type() != ElementType::Annotation)
         .map(|n| match parse_node(&n, sequence) {
             RsEntity::StructField(mut sf) => {
-                if sf.type_name.ends_with(parent_name) {
+                if sf.subtypes.is_empty() && is_enclosing_type(&n, &sf.type_name) {
                     sf.type_modifiers.push(TypeModifier::Recursive)
                 }
                 sf
diff --git a/xsd-parser/src/parser/utils.rs b/xsd-parser/src/parser/utils.rs
index 85798bc..d4c4aca 100644
--- a/xsd-parser/src/parser/utils.rs
+++ b/xsd-parser/src/parser/utils.rs
@@ -45,6 +45,31 @@ pub fn get_parent_name<'a>(node: &Node<'a, '_>) -> &'a str {
     }
 }
 
+/// Whether a field of this type makes the type enclosing `node` contain itself
+pub fn is_enclosing_type(node: &Node, type_name: &str) -> bool {
+    let (prefix, local) = match type_name.split_once(':') {
+        Some((p, l)) => (Some(p), l),
+        None => (None, type_name),
+    };
+    let owner = match node.ancestors().skip(1).find(|n| n.has_attribute(attribute::NAME)) {
+        Some(owner) => owner,
+        None => return false,
+    };
+    let schema = match owner.parent_element() {
+        Some(parent) if parent.xsd_type() == ElementType::Schema => parent,
+        _ => return false,
+    };
+    owner.attribute(attribute::NAME) == Some(local) && !is_foreign(&schema, prefix)
+}
+
+/// Whether a prefix is bound to another namespace than the target namespace
+pub fn is_foreign(schema: &Node, prefix: Option<&str>) -> bool {
+    match schema.lookup_namespace_uri(prefix) {
+        Some(uri) => schema.attribute(attribute::TARGET_NAMESPACE) != Some(uri),
+        None => false,
+    }
+}
+
 pub fn get_base<'a>(node: &Node<'a, '_>) -> &'a str {
     node.attribute(attribute::BASE).expect("The base value is required")
 }
-- 
2.43.0


From 40493d1b6334f6f2556ccf736e6267f18a8f3e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:57 +0000
Subject: [PATCH 23/58] fix: a choice branch of the enclosing type is recursive

---
 xsd-parser/src/parser/choice.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/xsd-parser/src/parser/choice.rs b/xsd-parser/src/parser/choice.rs
index f286613..f1e7c79 100644
--- a/xsd-parser/src/parser/choice.rs
+++ b/xsd-parser/src/parser/choice.rs
@@ -2,7 +2,8 @@ use roxmltree::Node;
 
 use crate::parser::{
     node_parser::parse_node,
-    types::{Enum, EnumSource, RsEntity},
+    types::{Enum, EnumSource, RsEntity, TypeModifier},
+    utils::is_enclosing_type,
     xsd_elements::{ElementType, XsdNode},
 };
 
@@ -11,7 +12,12 @@ pub fn parse_choice(choice: &Node) -> RsEntity {
         .children()
         .filter(|n| n.is_element() && n.xsd_type() == ElementType::Element)
         .map(|n| match parse_node(&n, choice) {
-            RsEntity::EnumCase(case) => case,
+            RsEntity::EnumCase(mut case) => {
+                if case.type_name.as_ref().map_or(false, |t| is_enclosing_type(&n, t)) {
+                    case.type_modifiers.push(TypeModifier::Recursive)
+                }
+                case
+            }
             _ => unreachable!("Elements in choice must be a enum variants"),
         })
         .collect();
-- 
2.43.0


From fd8c9f923267a2e11b905c31ba264f948eb413b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:48 +0000
Subject: [PATCH 24/58] fix: keep attribute groups beside any content model

A type with a sequence or an all group lost the groups it references, and
an extension or restriction with a group after its sequence lost the
sequence.
---
 xsd-parser/src/parser/complex_type.rs |  1 +
 xsd-parser/src/parser/extension.rs    | 11 +++--------
 xsd-parser/src/parser/restriction.rs  | 20 +++++++-------------
 3 files changed, 11 insertions(+), 21 deletions(-)

diff --git a/xsd-parser/src/parser/complex_type.rs b/xsd-parser/src/parser/complex_type.rs
index bed4dcc..2dbcd23 100644
--- a/xsd-parser/src/parser/complex_type.rs
+++ b/xsd-parser/src/parser/complex_type.rs
@@ -54,6 +54,7 @@ pub fn parse_complex_type(node: &Node, parent: &Node) -> RsEntity {
     match &mut res {
         RsEntity::Struct(st) => {
             st.fields.borrow_mut().append(&mut fields);
+            st.attribute_groups.borrow_mut().append(&mut attribute_groups_to_aliases(node));
             st.name = name.to_string();
         }
         RsEntity::Enum(en) => {
diff --git a/xsd-parser/src/parser/extension.rs b/xsd-parser/src/parser/extension.rs
index 1341b5a..0b78aaa 100644
--- a/xsd-parser/src/parser/extension.rs
+++ b/xsd-parser/src/parser/extension.rs
@@ -10,10 +10,8 @@ use crate::parser::{
     xsd_elements::{ElementType, ExtensionType, XsdNode},
 };
 
-const AVAILABLE_CONTENT_TYPES: [ElementType; 6] = [
+const AVAILABLE_CONTENT_TYPES: [ElementType; 4] = [
     ElementType::All, // Not presented in ONVIF
-    ElementType::Attribute,
-    ElementType::AttributeGroup,
     ElementType::Choice,
     ElementType::Group, // Not presented in ONVIF
     ElementType::Sequence,
@@ -64,17 +62,14 @@ fn complex_content_extension(node: &Node) -> RsEntity {
 
     let content = node
         .children()
-        .filter(|n| {
-            n.is_element()
-                && n.xsd_type() != ElementType::Attribute
-                && AVAILABLE_CONTENT_TYPES.contains(&n.xsd_type())
-        })
+        .filter(|n| n.is_element() && AVAILABLE_CONTENT_TYPES.contains(&n.xsd_type()))
         .last();
 
     if let Some(cont) = content {
         let mut res = parse_node(&cont, node);
         if let RsEntity::Struct(s) = &mut res {
             s.fields.borrow_mut().append(&mut fields);
+            s.attribute_groups.borrow_mut().append(&mut attribute_groups_to_aliases(node));
             s.comment = get_documentation(node);
             return res;
         }
diff --git a/xsd-parser/src/parser/restriction.rs b/xsd-parser/src/parser/restriction.rs
index f72c507..ae6fab5 100644
--- a/xsd-parser/src/parser/restriction.rs
+++ b/xsd-parser/src/parser/restriction.rs
@@ -19,14 +19,11 @@ use crate::{
     },
 };
 
-const AVAILABLE_CONTENT_TYPES: [ElementType; 7] = [
-    ElementType::All, // Not presented in ONVIF
-    ElementType::AnyAttribute,
-    ElementType::Attribute,
-    ElementType::AttributeGroup, // Not presented in ONVIF
-    ElementType::Choice,         // Not presented in ONVIF
-    ElementType::Group,          // Not presented in ONVIF
-    ElementType::Sequence,       // Not presented in ONVIF
+const AVAILABLE_CONTENT_TYPES: [ElementType; 4] = [
+    ElementType::All,      // Not presented in ONVIF
+    ElementType::Choice,   // Not presented in ONVIF
+    ElementType::Group,    // Not presented in ONVIF
+    ElementType::Sequence, // Not presented in ONVIF
 ];
 
 pub fn parse_restriction(node: &Node, _: &Node) -> RsEntity {
@@ -79,11 +76,7 @@ fn complex_content_restriction(node: &Node) -> RsEntity {
 
     let content = node
         .children()
-        .filter(|n| {
-            n.is_element()
-                && n.xsd_type() != ElementType::Attribute
-                && AVAILABLE_CONTENT_TYPES.contains(&n.xsd_type())
-        })
+        .filter(|n| n.is_element() && AVAILABLE_CONTENT_TYPES.contains(&n.xsd_type()))
         .last();
 
     if let Some(cont) = content {
@@ -91,6 +84,7 @@ fn complex_content_restriction(node: &Node) -> RsEntity {
         if let RsEntity::Struct(s) = &mut res {
             s.comment = get_documentation(node);
             s.fields.borrow_mut().append(&mut fields);
+            s.attribute_groups.borrow_mut().append(&mut attribute_groups_to_aliases(node));
             return res;
         }
     }
-- 
2.43.0


From 15e1c7a03f16db11946424e70dbd8b861028430a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:49 +0000
Subject: [PATCH 25/58] fix: inherit the whole base whatever the order of
 declarations

A type declared before its base lost what the base itself inherits, and
the attributes of the base were lost or kept depending on the order.
---
 xsd-parser/src/parser/mod.rs   |  4 +-
 xsd-parser/src/parser/types.rs | 69 +++++++++++++++++++++-------------
 2 files changed, 46 insertions(+), 27 deletions(-)

diff --git a/xsd-parser/src/parser/mod.rs b/xsd-parser/src/parser/mod.rs
index e03275f..cb6858b 100644
--- a/xsd-parser/src/parser/mod.rs
+++ b/xsd-parser/src/parser/mod.rs
@@ -54,10 +54,12 @@ pub fn parse(text: &str) -> Result<RsFile, ()> {
     }
     for ty in &schema_rs.types {
         if let RsEntity::Struct(st) = ty {
-            st.extend_base(&map);
             st.extend_attribute_group(&map);
         }
     }
+    for ty in &schema_rs.types {
+        ty.extend_base(&map);
+    }
 
     Ok(schema_rs)
 }
diff --git a/xsd-parser/src/parser/types.rs b/xsd-parser/src/parser/types.rs
index 1a88243..db42254 100644
--- a/xsd-parser/src/parser/types.rs
+++ b/xsd-parser/src/parser/types.rs
@@ -36,32 +36,43 @@ impl Struct {
     }
 
     pub fn extend_base(&self, types: &HashMap<&String, &Self>) {
-        self.fields.borrow_mut().iter_mut().for_each(|f| f.extend_base(types));
-
-        let mut fields = self
-            .fields
-            .borrow()
-            .iter()
-            .filter(|f| f.name.as_str() == tag::BASE)
-            .flat_map(|f| {
-                let key = f.type_name.split(':').last().unwrap().to_string();
-                types.get(&key).map(|s| s.fields.borrow().clone()).unwrap_or_default()
-            })
-            .filter(|f| {
-                //TODO: remove this workaround for fields names clash
-                !self.fields.borrow().iter().any(|field| field.name == f.name)
-            })
-            .collect::<Vec<StructField>>();
-
-        self.fields.borrow_mut().append(&mut fields);
-
-        self.fields.borrow_mut().retain(|field| field.name.as_str() != tag::BASE);
+        let mut path = vec![self as *const Self];
+        let fields = self.fields_with_base(types, &mut path);
+        *self.fields.borrow_mut() = fields;
 
         for subtype in &self.subtypes {
-            if let RsEntity::Struct(s) = subtype {
-                s.extend_base(types);
+            subtype.extend_base(types);
+        }
+    }
+
+    // `path` holds the types being extended, a type that is its own base ends there
+    fn fields_with_base(
+        &self,
+        types: &HashMap<&String, &Self>,
+        path: &mut Vec<*const Self>,
+    ) -> Vec<StructField> {
+        let (bases, mut fields): (Vec<_>, Vec<_>) =
+            self.fields.borrow().iter().cloned().partition(|f| f.name.as_str() == tag::BASE);
+
+        fields.iter_mut().for_each(|f| f.extend_base(types));
+
+        for base in bases {
+            let key = base.type_name.split(':').last().unwrap().to_string();
+            let st = match types.get(&key) {
+                Some(st) if !path.contains(&(*st as *const Self)) => *st,
+                _ => continue,
+            };
+            path.push(st);
+            let inherited = st.fields_with_base(types, path);
+            path.pop();
+            for f in inherited {
+                //TODO: remove this workaround for fields names clash
+                if !fields.iter().any(|field| field.name == f.name) {
+                    fields.push(f);
+                }
             }
         }
+        fields
     }
 
     pub fn extend_attribute_group(&self, types: &HashMap<&String, &Self>) {
@@ -91,10 +102,8 @@ pub struct StructField {
 
 impl StructField {
     pub fn extend_base(&mut self, types: &HashMap<&String, &Struct>) {
-        for subtype in &mut self.subtypes {
-            if let RsEntity::Struct(st) = subtype {
-                st.extend_base(types);
-            }
+        for subtype in &self.subtypes {
+            subtype.extend_base(types);
         }
     }
 }
@@ -192,6 +201,14 @@ pub enum RsEntity {
 }
 
 impl RsEntity {
+    pub fn extend_base(&self, types: &HashMap<&String, &Struct>) {
+        match self {
+            RsEntity::Struct(st) => st.extend_base(types),
+            RsEntity::Enum(en) => en.subtypes.iter().for_each(|ty| ty.extend_base(types)),
+            _ => (),
+        }
+    }
+
     pub fn name(&self) -> &str {
         use RsEntity::*;
         match self {
-- 
2.43.0


From 103acfb105b713871b4ed533d805cfa44ae181ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:50 +0000
Subject: [PATCH 26/58] fix: expand attribute groups in inline types, choices
 and other groups

Only types at the top level had their groups expanded, and groups within
groups were ignored. A type and a group of the same name were confused.
---
 xsd-parser/src/parser/attribute_group.rs |  3 +-
 xsd-parser/src/parser/mod.rs             |  7 ++--
 xsd-parser/src/parser/types.rs           | 43 +++++++++++++++++++-----
 3 files changed, 39 insertions(+), 14 deletions(-)

diff --git a/xsd-parser/src/parser/attribute_group.rs b/xsd-parser/src/parser/attribute_group.rs
index 4704b80..b21351f 100644
--- a/xsd-parser/src/parser/attribute_group.rs
+++ b/xsd-parser/src/parser/attribute_group.rs
@@ -3,7 +3,7 @@ use roxmltree::Node;
 use crate::parser::{
     node_parser::parse_node,
     types::{Alias, RsEntity, Struct, StructField},
-    utils::get_documentation,
+    utils::{attribute_groups_to_aliases, get_documentation},
     xsd_elements::{ElementType, XsdNode},
 };
 
@@ -31,6 +31,7 @@ fn parse_global_attribute_group(node: &Node) -> RsEntity {
     RsEntity::Struct(Struct {
         name: name.to_string(),
         fields: std::cell::RefCell::new(fields),
+        attribute_groups: std::cell::RefCell::new(attribute_groups_to_aliases(node)),
         ..Default::default()
     })
 }
diff --git a/xsd-parser/src/parser/mod.rs b/xsd-parser/src/parser/mod.rs
index cb6858b..f76434a 100644
--- a/xsd-parser/src/parser/mod.rs
+++ b/xsd-parser/src/parser/mod.rs
@@ -37,6 +37,7 @@ pub fn parse(text: &str) -> Result<RsFile, ()> {
     let root = doc.root();
 
     let mut map = HashMap::new();
+    let mut groups = HashMap::new();
 
     let schema =
         root.children().filter(|e| e.is_element()).last().expect("Schema element is required");
@@ -49,13 +50,11 @@ pub fn parse(text: &str) -> Result<RsFile, ()> {
     }
     for ag in &schema_rs.attribute_groups {
         if let RsEntity::Struct(st) = ag {
-            map.extend(st.get_types_map());
+            groups.extend(st.get_types_map());
         }
     }
     for ty in &schema_rs.types {
-        if let RsEntity::Struct(st) = ty {
-            st.extend_attribute_group(&map);
-        }
+        ty.extend_attribute_group(&groups);
     }
     for ty in &schema_rs.types {
         ty.extend_base(&map);
diff --git a/xsd-parser/src/parser/types.rs b/xsd-parser/src/parser/types.rs
index db42254..83ea702 100644
--- a/xsd-parser/src/parser/types.rs
+++ b/xsd-parser/src/parser/types.rs
@@ -76,17 +76,32 @@ impl Struct {
     }
 
     pub fn extend_attribute_group(&self, types: &HashMap<&String, &Self>) {
-        let mut fields = self
-            .attribute_groups
-            .borrow()
-            .iter()
-            .flat_map(|f| {
-                let key = f.original.split(':').last().unwrap().to_string();
-                types.get(&key).map(|s| s.fields.borrow().clone()).unwrap_or_default()
-            })
-            .collect::<Vec<StructField>>();
+        let mut fields = self.attribute_group_fields(types, &mut vec![]);
 
         self.fields.borrow_mut().append(&mut fields);
+
+        let fields = self.fields.borrow();
+        for subtype in fields.iter().flat_map(|f| &f.subtypes).chain(&self.subtypes) {
+            subtype.extend_attribute_group(types);
+        }
+    }
+
+    // `used` holds the groups already taken, a group contributes once
+    fn attribute_group_fields(
+        &self,
+        types: &HashMap<&String, &Self>,
+        used: &mut Vec<String>,
+    ) -> Vec<StructField> {
+        let mut fields = vec![];
+        for f in self.attribute_groups.borrow().iter() {
+            let key = f.original.split(':').last().unwrap().to_string();
+            if let (Some(group), false) = (types.get(&key), used.contains(&key)) {
+                used.push(key);
+                fields.append(&mut group.fields.borrow().clone());
+                fields.append(&mut group.attribute_group_fields(types, used));
+            }
+        }
+        fields
     }
 }
 
@@ -209,6 +224,16 @@ impl RsEntity {
         }
     }
 
+    pub fn extend_attribute_group(&self, types: &HashMap<&String, &Struct>) {
+        match self {
+            RsEntity::Struct(st) => st.extend_attribute_group(types),
+            RsEntity::Enum(en) => {
+                en.subtypes.iter().for_each(|ty| ty.extend_attribute_group(types))
+            }
+            _ => (),
+        }
+    }
+
     pub fn name(&self) -> &str {
         use RsEntity::*;
         match self {
-- 
2.43.0


From 0f01860c1038a38de43731da8094ce7eee6a2cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:51 +0000
Subject: [PATCH 27/58] fix: inherit from a type whose content is a choice

---
 xsd-parser/src/parser/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/xsd-parser/src/parser/mod.rs b/xsd-parser/src/parser/mod.rs
index f76434a..53fb360 100644
--- a/xsd-parser/src/parser/mod.rs
+++ b/xsd-parser/src/parser/mod.rs
@@ -44,8 +44,16 @@ pub fn parse(text: &str) -> Result<RsFile, ()> {
 
     let schema_rs = parse_schema(&schema);
     for ty in &schema_rs.types {
-        if let RsEntity::Struct(st) = ty {
-            map.extend(st.get_types_map());
+        match ty {
+            RsEntity::Struct(st) => map.extend(st.get_types_map()),
+            RsEntity::Enum(en) => {
+                for ty in &en.subtypes {
+                    if let RsEntity::Struct(st) = ty {
+                        map.extend(st.get_types_map());
+                    }
+                }
+            }
+            _ => (),
         }
     }
     for ag in &schema_rs.attribute_groups {
-- 
2.43.0


From a89e8f64864aa276826a0c0fbf63f424fdbfc4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:24 +0000
Subject: [PATCH 28/58] fix: end the inheritance at an inline type that extends
 its enclosing type

Such a type made the resolution of bases recurse without end.
---
 xsd-parser/src/parser/types.rs | 35 +++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/xsd-parser/src/parser/types.rs b/xsd-parser/src/parser/types.rs
index 83ea702..c8a17c7 100644
--- a/xsd-parser/src/parser/types.rs
+++ b/xsd-parser/src/parser/types.rs
@@ -36,12 +36,15 @@ impl Struct {
     }
 
     pub fn extend_base(&self, types: &HashMap<&String, &Self>) {
-        let mut path = vec![self as *const Self];
-        let fields = self.fields_with_base(types, &mut path);
+        self.extend_base_within(types, &mut vec![self]);
+    }
+
+    fn extend_base_within(&self, types: &HashMap<&String, &Self>, path: &mut Vec<*const Self>) {
+        let fields = self.fields_with_base(types, path);
         *self.fields.borrow_mut() = fields;
 
         for subtype in &self.subtypes {
-            subtype.extend_base(types);
+            subtype.extend_base_within(types, path);
         }
     }
 
@@ -54,7 +57,7 @@ impl Struct {
         let (bases, mut fields): (Vec<_>, Vec<_>) =
             self.fields.borrow().iter().cloned().partition(|f| f.name.as_str() == tag::BASE);
 
-        fields.iter_mut().for_each(|f| f.extend_base(types));
+        fields.iter_mut().for_each(|f| f.extend_base_within(types, path));
 
         for base in bases {
             let key = base.type_name.split(':').last().unwrap().to_string();
@@ -117,8 +120,16 @@ pub struct StructField {
 
 impl StructField {
     pub fn extend_base(&mut self, types: &HashMap<&String, &Struct>) {
+        self.extend_base_within(types, &mut vec![]);
+    }
+
+    fn extend_base_within(
+        &mut self,
+        types: &HashMap<&String, &Struct>,
+        path: &mut Vec<*const Struct>,
+    ) {
         for subtype in &self.subtypes {
-            subtype.extend_base(types);
+            subtype.extend_base_within(types, path);
         }
     }
 }
@@ -224,6 +235,20 @@ impl RsEntity {
         }
     }
 
+    fn extend_base_within(
+        &self,
+        types: &HashMap<&String, &Struct>,
+        path: &mut Vec<*const Struct>,
+    ) {
+        match self {
+            RsEntity::Struct(st) => st.extend_base_within(types, path),
+            RsEntity::Enum(en) => {
+                en.subtypes.iter().for_each(|ty| ty.extend_base_within(types, path))
+            }
+            _ => (),
+        }
+    }
+
     pub fn extend_attribute_group(&self, types: &HashMap<&String, &Struct>) {
         match self {
             RsEntity::Struct(st) => st.extend_attribute_group(types),
-- 
2.43.0


From e08b08bf06f3c28ff0c9c3cee80d72db538ab275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:02 +0000
Subject: [PATCH 29/58] fix: a base or group of another namespace is not the
 local one of that name

---
 xsd-parser/src/parser/extension.rs   | 24 ++++--------------------
 xsd-parser/src/parser/restriction.rs | 19 ++++---------------
 xsd-parser/src/parser/utils.rs       | 25 ++++++++++++++++++++++++-
 3 files changed, 32 insertions(+), 36 deletions(-)

diff --git a/xsd-parser/src/parser/extension.rs b/xsd-parser/src/parser/extension.rs
index 0b78aaa..cb1fec8 100644
--- a/xsd-parser/src/parser/extension.rs
+++ b/xsd-parser/src/parser/extension.rs
@@ -3,10 +3,9 @@ use std::cell::RefCell;
 use roxmltree::Node;
 
 use crate::parser::{
-    constants::{attribute, tag},
     node_parser::parse_node,
-    types::{RsEntity, Struct, StructField, StructFieldSource},
-    utils::{attribute_groups_to_aliases, attributes_to_fields, get_base, get_documentation},
+    types::{RsEntity, Struct},
+    utils::{attribute_groups_to_aliases, attributes_to_fields, base_field, get_documentation},
     xsd_elements::{ElementType, ExtensionType, XsdNode},
 };
 
@@ -27,16 +26,9 @@ pub fn parse_extension(node: &Node, _: &Node) -> RsEntity {
 }
 
 fn simple_content_extension(node: &Node) -> RsEntity {
-    let base = get_base(node);
     let mut fields = attributes_to_fields(node);
 
-    fields.push(StructField {
-        name: tag::BASE.to_string(),
-        type_name: base.to_string(),
-        comment: get_documentation(node),
-        source: StructFieldSource::Base,
-        ..Default::default()
-    });
+    fields.extend(base_field(node));
 
     RsEntity::Struct(Struct {
         name: String::default(),
@@ -48,17 +40,9 @@ fn simple_content_extension(node: &Node) -> RsEntity {
 }
 
 fn complex_content_extension(node: &Node) -> RsEntity {
-    let base = node.attribute(attribute::BASE).expect("The base value is required");
-
     let mut fields = attributes_to_fields(node);
 
-    fields.push(StructField {
-        name: tag::BASE.to_string(),
-        type_name: base.to_string(),
-        comment: get_documentation(node),
-        source: StructFieldSource::Base,
-        ..Default::default()
-    });
+    fields.extend(base_field(node));
 
     let content = node
         .children()
diff --git a/xsd-parser/src/parser/restriction.rs b/xsd-parser/src/parser/restriction.rs
index ae6fab5..86afbc3 100644
--- a/xsd-parser/src/parser/restriction.rs
+++ b/xsd-parser/src/parser/restriction.rs
@@ -5,15 +5,11 @@ use roxmltree::Node;
 use crate::{
     generator::default::default_format_type,
     parser::{
-        constants::tag,
         node_parser::parse_node,
-        types::{
-            Enum, EnumCase, EnumSource, Facet, RsEntity, Struct, StructField, StructFieldSource,
-            TupleStruct,
-        },
+        types::{Enum, EnumCase, EnumSource, Facet, RsEntity, Struct, TupleStruct},
         utils::{
-            attribute_groups_to_aliases, attributes_to_fields, get_base, get_documentation,
-            get_parent_name,
+            attribute_groups_to_aliases, attributes_to_fields, base_field, get_base,
+            get_documentation, get_parent_name,
         },
         xsd_elements::{ElementType, FacetType, RestrictionType, XsdNode},
     },
@@ -63,16 +59,9 @@ fn simple_content_restriction(node: &Node) -> RsEntity {
 // NOTE: current implementation works for types from ONVIF, but might not work
 // in a general case.
 fn complex_content_restriction(node: &Node) -> RsEntity {
-    let base = get_base(node);
     let mut fields = attributes_to_fields(node);
 
-    fields.push(StructField {
-        name: tag::BASE.to_string(),
-        type_name: base.to_string(),
-        comment: get_documentation(node),
-        source: StructFieldSource::Base,
-        ..Default::default()
-    });
+    fields.extend(base_field(node));
 
     let content = node
         .children()
diff --git a/xsd-parser/src/parser/utils.rs b/xsd-parser/src/parser/utils.rs
index d4c4aca..7de7298 100644
--- a/xsd-parser/src/parser/utils.rs
+++ b/xsd-parser/src/parser/utils.rs
@@ -3,7 +3,7 @@ use std::str;
 use roxmltree::{Namespace, Node};
 
 use crate::parser::{
-    constants::attribute,
+    constants::{attribute, tag},
     node_parser::parse_node,
     types::{Alias, Enum, RsEntity, StructField, StructFieldSource},
     xsd_elements::{ElementType, XsdNode},
@@ -74,6 +74,28 @@ pub fn get_base<'a>(node: &Node<'a, '_>) -> &'a str {
     node.attribute(attribute::BASE).expect("The base value is required")
 }
 
+/// Placeholder for the content of the base, if that is a type of this schema
+pub fn base_field(node: &Node) -> Option<StructField> {
+    let base = get_base(node);
+    if is_foreign_name(node, base) {
+        return None;
+    }
+    Some(StructField {
+        name: tag::BASE.to_string(),
+        type_name: base.to_string(),
+        comment: get_documentation(node),
+        source: StructFieldSource::Base,
+        ..Default::default()
+    })
+}
+
+fn is_foreign_name(node: &Node, name: &str) -> bool {
+    let prefix = name.split_once(':').map(|(prefix, _)| prefix);
+    node.ancestors()
+        .find(|n| n.xsd_type() == ElementType::Schema)
+        .map_or(false, |schema| is_foreign(&schema, prefix))
+}
+
 pub fn attributes_to_fields(node: &Node) -> Vec<StructField> {
     node.children()
         .filter(|n| {
@@ -89,6 +111,7 @@ pub fn attributes_to_fields(node: &Node) -> Vec<StructField> {
 pub fn attribute_groups_to_aliases(node: &Node) -> Vec<Alias> {
     node.children()
         .filter(|n| n.xsd_type() == ElementType::AttributeGroup)
+        .filter(|n| !n.attr_ref().map_or(false, |name| is_foreign_name(node, name)))
         .map(|n| match parse_node(&n, node) {
             RsEntity::Alias(a) => a,
             _ => unreachable!("Invalid attribute group parsing: {:?}", n),
-- 
2.43.0


From 069697d103f22eac465a5cc4afe6c0fa5f9f1837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:03 +0000
Subject: [PATCH 30/58] fix: keep the whole documentation

Only the first documentation element was used, and only up to the first
markup or XML comment in it.
---
 xsd-parser/src/parser/utils.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/xsd-parser/src/parser/utils.rs b/xsd-parser/src/parser/utils.rs
index 7de7298..0266442 100644
--- a/xsd-parser/src/parser/utils.rs
+++ b/xsd-parser/src/parser/utils.rs
@@ -24,9 +24,17 @@ pub fn find_child<'a, 'input>(node: &Node<'a, 'input>, tag_name: &str) -> Option
 }
 
 pub fn get_documentation(node: &Node<'_, '_>) -> Option<String> {
-    find_child(node, "annotation")
-        .and_then(|node| find_child(&node, "documentation"))
-        .and_then(|node| node.text().map(|s| s.to_string()))
+    let annotation = find_child(node, "annotation")?;
+    let docs = annotation
+        .children()
+        .filter(|n| n.xsd_type() == ElementType::Documentation)
+        .map(|n| n.descendants().filter(|n| n.is_text()).filter_map(|n| n.text()).collect())
+        .collect::<Vec<String>>();
+    if docs.is_empty() {
+        None
+    } else {
+        Some(docs.join("\n"))
+    }
 }
 
 pub fn get_parent_name<'a>(node: &Node<'a, '_>) -> &'a str {
-- 
2.43.0


From 2ad570ca516843abbfa4a63b31b78ea46c62afea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:05 +0000
Subject: [PATCH 31/58] fix: keep the documentation of derived types, global
 elements and attributes

---
 xsd-parser/src/parser/attribute.rs    | 9 ++++++++-
 xsd-parser/src/parser/complex_type.rs | 1 +
 xsd-parser/src/parser/element.rs      | 3 +++
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/xsd-parser/src/parser/attribute.rs b/xsd-parser/src/parser/attribute.rs
index 9d7ef18..60344a1 100644
--- a/xsd-parser/src/parser/attribute.rs
+++ b/xsd-parser/src/parser/attribute.rs
@@ -62,10 +62,17 @@ fn parse_global_attribute(node: &Node) -> RsEntity {
     {
         let mut entity = parse_node(&content, node);
         entity.set_name(name);
+        if let Some(comment) = get_documentation(node) {
+            entity.set_comment(Some(comment));
+        }
         return entity;
     }
 
-    RsEntity::Struct(Struct { name: name.to_string(), ..Default::default() })
+    RsEntity::Struct(Struct {
+        name: name.to_string(),
+        comment: get_documentation(node),
+        ..Default::default()
+    })
 }
 
 #[cfg(test)]
diff --git a/xsd-parser/src/parser/complex_type.rs b/xsd-parser/src/parser/complex_type.rs
index 2dbcd23..d31c620 100644
--- a/xsd-parser/src/parser/complex_type.rs
+++ b/xsd-parser/src/parser/complex_type.rs
@@ -56,6 +56,7 @@ pub fn parse_complex_type(node: &Node, parent: &Node) -> RsEntity {
             st.fields.borrow_mut().append(&mut fields);
             st.attribute_groups.borrow_mut().append(&mut attribute_groups_to_aliases(node));
             st.name = name.to_string();
+            st.comment = get_documentation(node).or_else(|| st.comment.take());
         }
         RsEntity::Enum(en) => {
             en.name = format!("{}Choice", name);
diff --git a/xsd-parser/src/parser/element.rs b/xsd-parser/src/parser/element.rs
index 6118d7d..94ee2b6 100644
--- a/xsd-parser/src/parser/element.rs
+++ b/xsd-parser/src/parser/element.rs
@@ -128,6 +128,9 @@ fn parse_global_element(node: &Node) -> RsEntity {
     if let Some(content) = content_node {
         let mut content_entity = parse_node(&content, node);
         content_entity.set_name(name);
+        if let Some(comment) = get_documentation(node) {
+            content_entity.set_comment(Some(comment));
+        }
         return content_entity;
     }
 
-- 
2.43.0


From 4a4aad6152d75a9c62ba00b4d4d31c231a5e4425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:07 +0000
Subject: [PATCH 32/58] fix: name the structure of an inline choice after its
 element

The enumeration of the choice took the name that belongs to the structure,
whose field then referred to an enumeration that did not exist.
---
 xsd-parser/src/parser/element.rs |  5 +++--
 xsd-parser/src/parser/types.rs   | 22 ++++++++++++++++++++++
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/xsd-parser/src/parser/element.rs b/xsd-parser/src/parser/element.rs
index 94ee2b6..690bc76 100644
--- a/xsd-parser/src/parser/element.rs
+++ b/xsd-parser/src/parser/element.rs
@@ -98,11 +98,12 @@ fn parse_field_of_sequence(node: &Node, _: &Node) -> RsEntity {
 
     let mut field_type = parse_node(&content_node, node);
 
-    field_type.set_name(format!("{}Type", name).as_str());
+    let type_name = format!("{}Type", name);
+    field_type.set_name(type_name.as_str());
 
     RsEntity::StructField(StructField {
         name,
-        type_name: field_type.name().to_string(),
+        type_name,
         comment: get_documentation(node),
         subtypes: vec![field_type],
         source: StructFieldSource::Element,
diff --git a/xsd-parser/src/parser/types.rs b/xsd-parser/src/parser/types.rs
index c8a17c7..d61b37a 100644
--- a/xsd-parser/src/parser/types.rs
+++ b/xsd-parser/src/parser/types.rs
@@ -171,6 +171,24 @@ pub struct Enum {
     pub source: EnumSource,
 }
 
+impl Enum {
+    /// Names the structure that a choice belongs to, and the choice after it
+    fn set_owner_name(&mut self, name: &str) {
+        let old_name = std::mem::replace(&mut self.name, format!("{}Choice", name));
+        for subtype in &mut self.subtypes {
+            if let RsEntity::Struct(st) = subtype {
+                st.name = name.to_string();
+                for field in st.fields.borrow_mut().iter_mut() {
+                    if matches!(field.source, StructFieldSource::Choice) && field.name == old_name {
+                        field.name = self.name.clone();
+                        field.type_name = self.name.clone();
+                    }
+                }
+            }
+        }
+    }
+}
+
 #[allow(clippy::upper_case_acronyms)]
 #[derive(Debug, Clone, PartialEq, Default)]
 pub enum EnumSource {
@@ -277,6 +295,7 @@ impl RsEntity {
         match self {
             Struct(s) => s.name = name.to_string(),
             TupleStruct(tp) => tp.name = name.to_string(),
+            Enum(e) if e.source == EnumSource::Choice => e.set_owner_name(name),
             Enum(e) => e.name = name.to_string(),
             EnumCase(ec) => ec.name = name.to_string(),
             Alias(al) => al.name = name.to_string(),
@@ -290,6 +309,9 @@ impl RsEntity {
         match self {
             Struct(s) => s.comment = comment,
             TupleStruct(tp) => tp.comment = comment,
+            Enum(e) if e.source == EnumSource::Choice => {
+                e.subtypes.iter_mut().for_each(|ty| ty.set_comment(comment.clone()))
+            }
             Enum(e) => e.comment = comment,
             EnumCase(ec) => ec.comment = comment,
             Alias(al) => al.comment = comment,
-- 
2.43.0


From 6cf7154f8bc6550bfb67e802cb92dd1599fcb01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:32 +0000
Subject: [PATCH 33/58] fix: flatten a choice within a sequence

The choice was read and written as an element of its own.
---
 xsd-parser/src/parser/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsd-parser/src/parser/utils.rs b/xsd-parser/src/parser/utils.rs
index 0266442..d5df252 100644
--- a/xsd-parser/src/parser/utils.rs
+++ b/xsd-parser/src/parser/utils.rs
@@ -132,7 +132,7 @@ pub fn enum_to_field(en: Enum) -> StructField {
         name: en.name.clone(),
         type_name: en.name.clone(),
         subtypes: vec![RsEntity::Enum(en)],
-        source: StructFieldSource::Element,
+        source: StructFieldSource::Choice,
         ..Default::default()
     }
 }
-- 
2.43.0


From a094cc9313d238537e50b2233f49b96874383bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:33 +0000
Subject: [PATCH 34/58] fix: write choice branches in the target namespace

Unlike other elements they were written without a prefix.
---
 xsd-parser/src/generator/enum_case.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/xsd-parser/src/generator/enum_case.rs b/xsd-parser/src/generator/enum_case.rs
index a5580db..df11812 100644
--- a/xsd-parser/src/generator/enum_case.rs
+++ b/xsd-parser/src/generator/enum_case.rs
@@ -1,5 +1,9 @@
 use crate::{
-    generator::{default::default_format_type, utils::split_name, Generator},
+    generator::{
+        default::{default_format_type, yaserde_for_element},
+        utils::split_name,
+        Generator,
+    },
     parser::types::{EnumCase, EnumSource},
 };
 
@@ -42,6 +46,14 @@ pub trait EnumCaseGenerator {
             return "".into();
         }
 
+        if entity.source == EnumSource::Choice {
+            return yaserde_for_element(
+                entity.name.as_str(),
+                gen.target_ns.borrow().as_ref(),
+                gen.base().indent().as_str(),
+            );
+        }
+
         let (prefix, field_name) = split_name(entity.name.as_str());
         match prefix {
             Some(p) => format!(
-- 
2.43.0


From 26dffae70cf5e38eee4895e24f03944c963343ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:35 +0000
Subject: [PATCH 35/58] fix: resolve bases and attribute groups of embedded
 schemas too

Only the schemas of .xsd files were resolved, not those within WSDL.
---
 xsd-parser/src/parser/mod.rs    | 13 +++++++------
 xsd-parser/src/parser/schema.rs |  7 +++++--
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/xsd-parser/src/parser/mod.rs b/xsd-parser/src/parser/mod.rs
index 53fb360..d732d2d 100644
--- a/xsd-parser/src/parser/mod.rs
+++ b/xsd-parser/src/parser/mod.rs
@@ -36,13 +36,16 @@ pub fn parse(text: &str) -> Result<RsFile, ()> {
     let doc = roxmltree::Document::parse(text).expect("Parse document error");
     let root = doc.root();
 
-    let mut map = HashMap::new();
-    let mut groups = HashMap::new();
-
     let schema =
         root.children().filter(|e| e.is_element()).last().expect("Schema element is required");
 
-    let schema_rs = parse_schema(&schema);
+    Ok(parse_schema(&schema))
+}
+
+fn extend_types(schema_rs: &RsFile) {
+    let mut map = HashMap::new();
+    let mut groups = HashMap::new();
+
     for ty in &schema_rs.types {
         match ty {
             RsEntity::Struct(st) => map.extend(st.get_types_map()),
@@ -67,6 +70,4 @@ pub fn parse(text: &str) -> Result<RsFile, ()> {
     for ty in &schema_rs.types {
         ty.extend_base(&map);
     }
-
-    Ok(schema_rs)
 }
diff --git a/xsd-parser/src/parser/schema.rs b/xsd-parser/src/parser/schema.rs
index 36be5ef..5430a44 100644
--- a/xsd-parser/src/parser/schema.rs
+++ b/xsd-parser/src/parser/schema.rs
@@ -1,6 +1,7 @@
 use roxmltree::Node;
 
 use crate::parser::{
+    extend_types,
     node_parser::parse_node,
     types::RsFile,
     utils::target_namespace,
@@ -12,7 +13,7 @@ pub fn parse_schema<'input>(schema: &Node<'_, 'input>) -> RsFile<'input> {
         .namespaces()
         .filter(|namespace| namespace.uri() == "http://www.w3.org/2001/XMLSchema");
 
-    RsFile {
+    let schema_rs = RsFile {
         name: "".into(),
         namespace: None,
         target_ns: target_namespace(schema).cloned(),
@@ -35,7 +36,9 @@ pub fn parse_schema<'input>(schema: &Node<'_, 'input>) -> RsFile<'input> {
             .filter(|n| n.is_element() && n.xsd_type() == ElementType::AttributeGroup)
             .map(|node| parse_node(&node, schema))
             .collect(),
-    }
+    };
+    extend_types(&schema_rs);
+    schema_rs
 }
 
 #[cfg(test)]
-- 
2.43.0


From 158bfe60909798c0a53367a4b1b749b74d17b174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:35 +0000
Subject: [PATCH 36/58] fix: generate functions in the order of the document

The order of port types changed from run to run.
---
 wsdl-parser/src/generator/mod.rs      | 2 +-
 wsdl-parser/src/parser/definitions.rs | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/wsdl-parser/src/generator/mod.rs b/wsdl-parser/src/generator/mod.rs
index e9a8346..b161569 100644
--- a/wsdl-parser/src/generator/mod.rs
+++ b/wsdl-parser/src/generator/mod.rs
@@ -10,7 +10,7 @@ pub mod function;
 pub fn generate(definitions: &Definitions) -> String {
     let mut res = vec![];
 
-    for port_type in definitions.port_types().values() {
+    for port_type in definitions.ordered_port_types() {
         for op in port_type.operations() {
             let func = Function::new(op, definitions);
             res.push(generate_function(&func, definitions.target_namespace()));
diff --git a/wsdl-parser/src/parser/definitions.rs b/wsdl-parser/src/parser/definitions.rs
index df04a62..0aa61f0 100644
--- a/wsdl-parser/src/parser/definitions.rs
+++ b/wsdl-parser/src/parser/definitions.rs
@@ -41,6 +41,7 @@ pub struct Definitions<'a> {
     types: Vec<Types<'a>>,
     messages: HashMap<&'a str, Message<'a>>,
     port_types: HashMap<&'a str, PortType<'a>>,
+    port_type_names: Vec<&'a str>,
     bindings: HashMap<&'a str, Binding<'a>>,
     //TODO: services
 }
@@ -69,6 +70,11 @@ impl<'a> Definitions<'a> {
         &self.port_types
     }
 
+    /// Port types in the order of the document
+    pub fn ordered_port_types(&self) -> impl Iterator<Item = &PortType<'a>> {
+        self.port_type_names.iter().map(move |name| &self.port_types[name])
+    }
+
     pub fn types(&self) -> &[Types] {
         self.types.as_ref()
     }
@@ -87,6 +93,7 @@ impl<'a> Definitions<'a> {
             imports: HashMap::new(),
             messages: HashMap::new(),
             port_types: HashMap::new(),
+            port_type_names: vec![],
             types: vec![],
             bindings: HashMap::new(),
         };
@@ -121,6 +128,7 @@ impl<'a> Definitions<'a> {
 
     fn add_port_type(&mut self, node: &Node<'a, '_>) {
         let port_type = PortType::new(node);
+        self.port_type_names.push(port_type.name());
         assert!(
             self.port_types.insert(port_type.name(), port_type).is_none(),
             "portType name must be unique"
-- 
2.43.0


From 80f5e1cff2ff9d7d10efd286612bd68faafadd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:36 +0000
Subject: [PATCH 37/58] fix: an operation without output returns unit

The generated function had no result type at all, which does not compile.
---
 wsdl-parser/src/generator/function.rs | 4 +++-
 wsdl-parser/src/generator/mod.rs      | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/wsdl-parser/src/generator/function.rs b/wsdl-parser/src/generator/function.rs
index 29c845c..bb5ea6f 100644
--- a/wsdl-parser/src/generator/function.rs
+++ b/wsdl-parser/src/generator/function.rs
@@ -55,7 +55,9 @@ impl<'a> Function<'a> {
         Function {
             generic_params: vec![GENERIC_TRANSPORT],
             arguments: get_input_params(input_message),
-            return_type: output_message.and_then(|m| m.parts()[0].element()).unwrap_or(""),
+            return_type: output_message
+                .and_then(|m| m.parts().first().and_then(|part| part.element()))
+                .unwrap_or_default(),
             documentation: operation.documentation(),
             name: operation.name(),
         }
diff --git a/wsdl-parser/src/generator/mod.rs b/wsdl-parser/src/generator/mod.rs
index b161569..fe2e0e5 100644
--- a/wsdl-parser/src/generator/mod.rs
+++ b/wsdl-parser/src/generator/mod.rs
@@ -45,7 +45,10 @@ fn generate_function(func: &Function<'_>, target_ns: Option<&Namespace>) -> Stri
             .map(|p| format!("{}: &{}", p.name, ftype(p.typename)))
             .collect::<Vec<String>>()
             .join(",\n    "),
-        return_type = ftype(func.return_type),
+        return_type = match func.return_type {
+            "" => "()".into(),
+            ty => ftype(ty),
+        },
         body = REQUEST_FUNC_BODY
     )
 }
-- 
2.43.0


From d71bee4c3c3394f8a87c93c28dbfda1ecc7a6c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:37 +0000
Subject: [PATCH 38/58] fix: prefer the prefix of the target namespace of a
 WSDL document

As for schemas.
---
 wsdl-parser/src/parser/definitions.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wsdl-parser/src/parser/definitions.rs b/wsdl-parser/src/parser/definitions.rs
index 0aa61f0..a9dca34 100644
--- a/wsdl-parser/src/parser/definitions.rs
+++ b/wsdl-parser/src/parser/definitions.rs
@@ -49,7 +49,11 @@ pub struct Definitions<'a> {
 impl<'a> Definitions<'a> {
     pub fn target_namespace(&self) -> Option<&'a Namespace<'_>> {
         match self.node().attribute(attribute::TARGET_NAMESPACE) {
-            Some(tn) => self.node().namespaces().find(|a| a.uri() == tn),
+            Some(tn) => self
+                .node()
+                .namespaces()
+                .find(|a| a.uri() == tn && a.name().is_some())
+                .or_else(|| self.node().namespaces().find(|a| a.uri() == tn)),
             None => None,
         }
     }
-- 
2.43.0


From bed903f4558a0ca462cb1f6c5ae61d42b25521c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:58 +0000
Subject: [PATCH 39/58] fix: keep the choice of a derived type

A choice within an extension or restriction was dropped.
---
 xsd-parser/src/parser/extension.rs   | 12 +++++++++++-
 xsd-parser/src/parser/restriction.rs | 11 +++++++++--
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/xsd-parser/src/parser/extension.rs b/xsd-parser/src/parser/extension.rs
index cb1fec8..04e7f3a 100644
--- a/xsd-parser/src/parser/extension.rs
+++ b/xsd-parser/src/parser/extension.rs
@@ -5,7 +5,10 @@ use roxmltree::Node;
 use crate::parser::{
     node_parser::parse_node,
     types::{RsEntity, Struct},
-    utils::{attribute_groups_to_aliases, attributes_to_fields, base_field, get_documentation},
+    utils::{
+        attribute_groups_to_aliases, attributes_to_fields, base_field, enum_to_field,
+        get_documentation, get_parent_name,
+    },
     xsd_elements::{ElementType, ExtensionType, XsdNode},
 };
 
@@ -51,6 +54,13 @@ fn complex_content_extension(node: &Node) -> RsEntity {
 
     if let Some(cont) = content {
         let mut res = parse_node(&cont, node);
+        if let RsEntity::Enum(mut en) = res {
+            en.name = format!("{}Choice", get_parent_name(node));
+            res = RsEntity::Struct(Struct {
+                fields: RefCell::new(vec![enum_to_field(en)]),
+                ..Default::default()
+            });
+        }
         if let RsEntity::Struct(s) = &mut res {
             s.fields.borrow_mut().append(&mut fields);
             s.attribute_groups.borrow_mut().append(&mut attribute_groups_to_aliases(node));
diff --git a/xsd-parser/src/parser/restriction.rs b/xsd-parser/src/parser/restriction.rs
index 86afbc3..a7b4d90 100644
--- a/xsd-parser/src/parser/restriction.rs
+++ b/xsd-parser/src/parser/restriction.rs
@@ -8,8 +8,8 @@ use crate::{
         node_parser::parse_node,
         types::{Enum, EnumCase, EnumSource, Facet, RsEntity, Struct, TupleStruct},
         utils::{
-            attribute_groups_to_aliases, attributes_to_fields, base_field, get_base,
-            get_documentation, get_parent_name,
+            attribute_groups_to_aliases, attributes_to_fields, base_field, enum_to_field,
+            get_base, get_documentation, get_parent_name,
         },
         xsd_elements::{ElementType, FacetType, RestrictionType, XsdNode},
     },
@@ -70,6 +70,13 @@ fn complex_content_restriction(node: &Node) -> RsEntity {
 
     if let Some(cont) = content {
         let mut res = parse_node(&cont, node);
+        if let RsEntity::Enum(mut en) = res {
+            en.name = format!("{}Choice", get_parent_name(node));
+            res = RsEntity::Struct(Struct {
+                fields: RefCell::new(vec![enum_to_field(en)]),
+                ..Default::default()
+            });
+        }
         if let RsEntity::Struct(s) = &mut res {
             s.comment = get_documentation(node);
             s.fields.borrow_mut().append(&mut fields);
-- 
2.43.0


From 1752e9228e7e8b9489b3b5d78f205a9ae306b42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:12 +0000
Subject: [PATCH 40/58] fix: a prefix that is not an identifier gives a legal
 path

---
 wsdl-parser/src/generator/mod.rs    | 6 +++++-
 xsd-parser/src/generator/default.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/wsdl-parser/src/generator/mod.rs b/wsdl-parser/src/generator/mod.rs
index fe2e0e5..c762b7f 100644
--- a/wsdl-parser/src/generator/mod.rs
+++ b/wsdl-parser/src/generator/mod.rs
@@ -86,7 +86,11 @@ fn default_format_type(type_name: &str, target_ns: Option<&Namespace>) -> Cow<'s
 
     let pascalized_name = filter_type_name(to_pascal_case(name).as_str());
 
-    let qname = |prefix| format!("{}::{}", prefix, pascalized_name);
+    // Not every XML prefix is a Rust identifier
+    let qname = |prefix: &str| {
+        let module = prefix.replace(|c: char| !c.is_alphanumeric() && c != '_', "_");
+        format!("{}::{}", sanitize(module), pascalized_name)
+    };
 
     let res = match (prefix, option_tns) {
         (Some(ns), Some(tns)) => {
diff --git a/xsd-parser/src/generator/default.rs b/xsd-parser/src/generator/default.rs
index b80d793..6c1a2d2 100644
--- a/xsd-parser/src/generator/default.rs
+++ b/xsd-parser/src/generator/default.rs
@@ -27,7 +27,11 @@ pub fn default_format_type(type_name: &str, target_ns: &Option<Namespace>) -> Co
 
     let pascalized_name = filter_type_name(to_pascal_case(name).as_str());
 
-    let qname = |prefix| format!("{}::{}", prefix, pascalized_name);
+    // Not every XML prefix is a Rust identifier
+    let qname = |prefix: &str| {
+        let module = prefix.replace(|c: char| !c.is_alphanumeric() && c != '_', "_");
+        format!("{}::{}", sanitize(module), pascalized_name)
+    };
 
     let res = match (prefix, option_tns) {
         (Some(ns), Some(tns)) => {
-- 
2.43.0


From 54b8830c1625026d5736df1e38291cdd8ceb0f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:31 +0000
Subject: [PATCH 41/58] fix: facets of a list item are not facets of the list

The validation of the list compared the vector with the bound of an item
and did not compile.
---
 xsd-parser/src/parser/list.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xsd-parser/src/parser/list.rs b/xsd-parser/src/parser/list.rs
index a5db2c1..f3e3868 100644
--- a/xsd-parser/src/parser/list.rs
+++ b/xsd-parser/src/parser/list.rs
@@ -21,7 +21,8 @@ pub fn parse_list(list: &Node) -> RsEntity {
                     subtypes: vec![RsEntity::Enum(en)],
                     ..Default::default()
                 },
-                RsEntity::TupleStruct(ts) => ts,
+                // The facets restrict an item, not the list
+                RsEntity::TupleStruct(ts) => TupleStruct { facets: vec![], ..ts },
                 _ => unreachable!(),
             }
         }
-- 
2.43.0


From 79fbfe9036d8a657541b1c19747ee416430260e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:32 +0000
Subject: [PATCH 42/58] fix: name the union that is the inline item of a list

---
 xsd-parser/src/parser/list.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/xsd-parser/src/parser/list.rs b/xsd-parser/src/parser/list.rs
index f3e3868..11c9b31 100644
--- a/xsd-parser/src/parser/list.rs
+++ b/xsd-parser/src/parser/list.rs
@@ -4,7 +4,7 @@ use crate::parser::{
     constants::attribute,
     node_parser::parse_node,
     types::{RsEntity, TupleStruct, TypeModifier},
-    utils::find_child,
+    utils::{find_child, get_parent_name},
 };
 
 pub fn parse_list(list: &Node) -> RsEntity {
@@ -16,11 +16,16 @@ pub fn parse_list(list: &Node) -> RsEntity {
             );
 
             match parse_node(&nested_simple_type, list) {
-                RsEntity::Enum(en) => TupleStruct {
-                    type_name: en.name.clone(),
-                    subtypes: vec![RsEntity::Enum(en)],
-                    ..Default::default()
-                },
+                RsEntity::Enum(mut en) => {
+                    if en.name.is_empty() {
+                        en.name = format!("{}Union", get_parent_name(list));
+                    }
+                    TupleStruct {
+                        type_name: en.name.clone(),
+                        subtypes: vec![RsEntity::Enum(en)],
+                        ..Default::default()
+                    }
+                }
                 // The facets restrict an item, not the list
                 RsEntity::TupleStruct(ts) => TupleStruct { facets: vec![], ..ts },
                 _ => unreachable!(),
-- 
2.43.0


From 79f2118253422ff0a59f694f743d10b13b871f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:34 +0000
Subject: [PATCH 43/58] fix: name inline types of a union or list after it

Two unions with inline members, or two lists with inline items in one union,
gave definitions of the same name in one scope.
---
 xsd-parser/src/parser/types.rs | 44 +++++++++++++++++++++++++++++++---
 1 file changed, 41 insertions(+), 3 deletions(-)

diff --git a/xsd-parser/src/parser/types.rs b/xsd-parser/src/parser/types.rs
index d61b37a..4a4cacf 100644
--- a/xsd-parser/src/parser/types.rs
+++ b/xsd-parser/src/parser/types.rs
@@ -171,7 +171,46 @@ pub struct Enum {
     pub source: EnumSource,
 }
 
+impl TupleStruct {
+    /// Names the list, and the inline type of its items after it
+    fn set_name(&mut self, name: &str) {
+        self.name = name.to_string();
+        for subtype in &mut self.subtypes {
+            if let RsEntity::Enum(en) = subtype {
+                let suffix = if en.source == EnumSource::Union { "Union" } else { "Enum" };
+                en.set_name(&format!("{}{}", name, suffix));
+                self.type_name = en.name.clone();
+            }
+        }
+    }
+}
+
 impl Enum {
+    fn set_name(&mut self, name: &str) {
+        if self.source == EnumSource::Choice {
+            return self.set_owner_name(name);
+        }
+        self.name = name.to_string();
+        if self.source == EnumSource::Union {
+            self.name_inline_members();
+        }
+    }
+
+    /// Names the inline members of a union after it, they share its scope
+    fn name_inline_members(&mut self) {
+        for (index, subtype) in self.subtypes.iter_mut().enumerate() {
+            let old_name = subtype.name().to_string();
+            subtype.set_name(&format!("{}EnumCaseType_{}", self.name, index));
+            for case in &mut self.cases {
+                if case.name == format!("EnumCase_{}", index)
+                    && case.type_name.as_deref() == Some(old_name.as_str())
+                {
+                    case.type_name = Some(subtype.name().to_string());
+                }
+            }
+        }
+    }
+
     /// Names the structure that a choice belongs to, and the choice after it
     fn set_owner_name(&mut self, name: &str) {
         let old_name = std::mem::replace(&mut self.name, format!("{}Choice", name));
@@ -294,9 +333,8 @@ impl RsEntity {
         use RsEntity::*;
         match self {
             Struct(s) => s.name = name.to_string(),
-            TupleStruct(tp) => tp.name = name.to_string(),
-            Enum(e) if e.source == EnumSource::Choice => e.set_owner_name(name),
-            Enum(e) => e.name = name.to_string(),
+            TupleStruct(tp) => tp.set_name(name),
+            Enum(e) => e.set_name(name),
             EnumCase(ec) => ec.name = name.to_string(),
             Alias(al) => al.name = name.to_string(),
             StructField(sf) => sf.name = name.to_string(),
-- 
2.43.0


From 14aa8ce9fee6e329eb6ced408ac226bffd097b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:56 +0000
Subject: [PATCH 44/58] fix: a union can be cloned, parsed and printed

A structure with a field that is a union did not compile, since structures
derive Clone, nor did a list of a union or a union of unions.
---
 xsd-macro-utils/src/union.rs | 37 ++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/xsd-macro-utils/src/union.rs b/xsd-macro-utils/src/union.rs
index c809193..48d807e 100644
--- a/xsd-macro-utils/src/union.rs
+++ b/xsd-macro-utils/src/union.rs
@@ -60,7 +60,44 @@ pub fn serde(ast: &syn::DeriveInput) -> syn::Result<TokenStream> {
         })
         .collect::<TokenStream>();
 
+    let clone_variants = variants
+        .iter()
+        .map(|(ident, _subtype)| {
+            quote! {
+                #struct_name::#ident(val) => #struct_name::#ident(val.clone()),
+            }
+        })
+        .collect::<TokenStream>();
+
     Ok(quote! {
+        impl ::std::clone::Clone for #struct_name {
+            fn clone(&self) -> Self {
+                match self {
+                    #clone_variants
+                    #struct_name::__Unknown__(val) => #struct_name::__Unknown__(val.clone())
+                }
+            }
+        }
+
+        impl ::std::str::FromStr for #struct_name {
+            type Err = ::std::string::String;
+
+            fn from_str(s: &::std::primitive::str) -> ::std::result::Result<Self, Self::Err> {
+                #de_variants
+                Err("No valid variants".to_string())
+            }
+        }
+
+        impl ::std::fmt::Display for #struct_name {
+            fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
+                let text = match self {
+                    #ser_variants
+                    #struct_name::__Unknown__(_) => "".to_string()
+                };
+                f.write_str(&text)
+            }
+        }
+
         impl ::yaserde::YaSerialize for #struct_name {
             fn serialize<W: ::std::io::Write>(
                 &self,
-- 
2.43.0


From 470c8e457e315e648529b7adc63513a578659174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:46 +0000
Subject: [PATCH 45/58] fix: several choices in a sequence get names of their
 own

---
 xsd-parser/src/parser/sequence.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xsd-parser/src/parser/sequence.rs b/xsd-parser/src/parser/sequence.rs
index 784f845..4a8fc0d 100644
--- a/xsd-parser/src/parser/sequence.rs
+++ b/xsd-parser/src/parser/sequence.rs
@@ -21,6 +21,7 @@ pub fn parse_sequence(sequence: &Node, parent: &Node) -> RsEntity {
 }
 
 fn elements_to_fields(sequence: &Node, parent_name: &str) -> Vec<StructField> {
+    let mut choices = 0;
     sequence
         .children()
         .filter(|n| n.is_element() && n.xsd_type() != ElementType::Annotation)
@@ -32,7 +33,11 @@ fn elements_to_fields(sequence: &Node, parent_name: &str) -> Vec<StructField> {
                 sf
             }
             RsEntity::Enum(mut en) => {
-                en.name = format!("{}Choice", parent_name);
+                choices += 1;
+                en.name = match choices {
+                    1 => format!("{}Choice", parent_name),
+                    n => format!("{}Choice{}", parent_name, n),
+                };
                 enum_to_field(en)
             }
             _ => unreachable!("\nError: {:?}\n{:?}", n, parse_node(&n, sequence)),
-- 
2.43.0


From 55d1458de482e53bac104e0df6d378f0452fce3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:36 +0000
Subject: [PATCH 46/58] fix: look the prefix of a base or group up where it is
 used

---
 xsd-parser/src/parser/utils.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/xsd-parser/src/parser/utils.rs b/xsd-parser/src/parser/utils.rs
index d5df252..6bcb80c 100644
--- a/xsd-parser/src/parser/utils.rs
+++ b/xsd-parser/src/parser/utils.rs
@@ -67,12 +67,12 @@ pub fn is_enclosing_type(node: &Node, type_name: &str) -> bool {
         Some(parent) if parent.xsd_type() == ElementType::Schema => parent,
         _ => return false,
     };
-    owner.attribute(attribute::NAME) == Some(local) && !is_foreign(&schema, prefix)
+    owner.attribute(attribute::NAME) == Some(local) && !is_foreign(node, &schema, prefix)
 }
 
-/// Whether a prefix is bound to another namespace than the target namespace
-pub fn is_foreign(schema: &Node, prefix: Option<&str>) -> bool {
-    match schema.lookup_namespace_uri(prefix) {
+/// Whether a prefix is bound at `node` to another namespace than the target namespace
+fn is_foreign(node: &Node, schema: &Node, prefix: Option<&str>) -> bool {
+    match node.lookup_namespace_uri(prefix) {
         Some(uri) => schema.attribute(attribute::TARGET_NAMESPACE) != Some(uri),
         None => false,
     }
@@ -101,7 +101,7 @@ fn is_foreign_name(node: &Node, name: &str) -> bool {
     let prefix = name.split_once(':').map(|(prefix, _)| prefix);
     node.ancestors()
         .find(|n| n.xsd_type() == ElementType::Schema)
-        .map_or(false, |schema| is_foreign(&schema, prefix))
+        .map_or(false, |schema| is_foreign(node, &schema, prefix))
 }
 
 pub fn attributes_to_fields(node: &Node) -> Vec<StructField> {
-- 
2.43.0


From 0283611084795f9464ed72d0cc3295eb7fe966c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:02 +0000
Subject: [PATCH 47/58] fix: a name of another namespace that starts with a
 digit

The path to it had a digit first, as in tt::1St.
---
 xsd-parser/src/generator/default.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xsd-parser/src/generator/default.rs b/xsd-parser/src/generator/default.rs
index 6c1a2d2..ecd036f 100644
--- a/xsd-parser/src/generator/default.rs
+++ b/xsd-parser/src/generator/default.rs
@@ -25,7 +25,7 @@ pub fn default_format_type(type_name: &str, target_ns: &Option<Namespace>) -> Co
     let (prefix, name) = split_name(type_name);
     let option_tns = target_ns.as_ref().and_then(|ns| ns.name());
 
-    let pascalized_name = filter_type_name(to_pascal_case(name).as_str());
+    let pascalized_name = sanitize(filter_type_name(to_pascal_case(name).as_str()));
 
     // Not every XML prefix is a Rust identifier
     let qname = |prefix: &str| {
@@ -46,7 +46,7 @@ pub fn default_format_type(type_name: &str, target_ns: &Option<Namespace>) -> Co
         _ => pascalized_name,
     };
 
-    sanitize(res).into()
+    res.into()
 }
 
 pub fn default_modify_type(type_name: &str, modifiers: &[TypeModifier]) -> Cow<'static, str> {
-- 
2.43.0


From b3df5e8147b74cd022dbfa123045ef13247cff47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:51 +0000
Subject: [PATCH 48/58] fix: a WSDL part of another namespace whose name starts
 with a digit

The leading underscore was put before the path, where it is not needed, and
not before the name: oth:_1st became the illegal oth::1St.
---
 wsdl-parser/src/generator/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wsdl-parser/src/generator/mod.rs b/wsdl-parser/src/generator/mod.rs
index c762b7f..a6d1cea 100644
--- a/wsdl-parser/src/generator/mod.rs
+++ b/wsdl-parser/src/generator/mod.rs
@@ -89,22 +89,22 @@ fn default_format_type(type_name: &str, target_ns: Option<&Namespace>) -> Cow<'s
     // Not every XML prefix is a Rust identifier
     let qname = |prefix: &str| {
         let module = prefix.replace(|c: char| !c.is_alphanumeric() && c != '_', "_");
-        format!("{}::{}", sanitize(module), pascalized_name)
+        format!("{}::{}", sanitize(module), sanitize(pascalized_name.clone()))
     };
 
     let res = match (prefix, option_tns) {
         (Some(ns), Some(tns)) => {
             if ns == tns {
-                pascalized_name
+                sanitize(pascalized_name)
             } else {
                 qname(ns)
             }
         }
         (Some(ns), None) => qname(ns),
-        _ => pascalized_name,
+        _ => sanitize(pascalized_name),
     };
 
-    sanitize(res).into()
+    res.into()
 }
 
 pub fn default_format_name(name: &str) -> String {
-- 
2.43.0


From 5bd1fc993212ed67255ad53f8c422b029f464cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:52 +0000
Subject: [PATCH 49/58] fix: keep the whole documentation of an operation

Text after markup or an XML comment, and any further documentation element,
was dropped.
---
 wsdl-parser/src/generator/function.rs |  2 +-
 wsdl-parser/src/generator/mod.rs      |  2 +-
 wsdl-parser/src/parser/port_type.rs   | 20 ++++++++++++--------
 3 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/wsdl-parser/src/generator/function.rs b/wsdl-parser/src/generator/function.rs
index bb5ea6f..bfcd1c4 100644
--- a/wsdl-parser/src/generator/function.rs
+++ b/wsdl-parser/src/generator/function.rs
@@ -15,7 +15,7 @@ pub struct Function<'a> {
     pub generic_params: Vec<Param<'a>>,
     pub arguments: Vec<Param<'a>>,
     pub return_type: &'a str,
-    pub documentation: Option<&'a str>,
+    pub documentation: Option<String>,
     pub name: &'a str,
 }
 
diff --git a/wsdl-parser/src/generator/mod.rs b/wsdl-parser/src/generator/mod.rs
index a6d1cea..09b6b57 100644
--- a/wsdl-parser/src/generator/mod.rs
+++ b/wsdl-parser/src/generator/mod.rs
@@ -31,7 +31,7 @@ fn generate_function(func: &Function<'_>, target_ns: Option<&Namespace>) -> Stri
     {body}
 }}
 "#,
-        comment = default_format_comment(func.documentation, 80, 0),
+        comment = default_format_comment(func.documentation.as_deref(), 80, 0),
         name = default_format_name(func.name),
         generics = func
             .generic_params
diff --git a/wsdl-parser/src/parser/port_type.rs b/wsdl-parser/src/parser/port_type.rs
index dd17c0f..4d1dc15 100644
--- a/wsdl-parser/src/parser/port_type.rs
+++ b/wsdl-parser/src/parser/port_type.rs
@@ -96,14 +96,18 @@ impl<'a> Operation<'a> {
         &self.ty
     }
 
-    pub fn documentation(&self) -> Option<&'a str> {
-        self.node.children().find_map(|n| {
-            if n.wsdl_type() == ElementType::Documentation {
-                n.text()
-            } else {
-                None
-            }
-        })
+    pub fn documentation(&self) -> Option<String> {
+        let docs = self
+            .node
+            .children()
+            .filter(|n| n.wsdl_type() == ElementType::Documentation)
+            .map(|n| n.descendants().filter(|n| n.is_text()).filter_map(|n| n.text()).collect())
+            .collect::<Vec<String>>();
+        if docs.is_empty() {
+            None
+        } else {
+            Some(docs.join("\n"))
+        }
     }
 }
 
-- 
2.43.0


From b59258f77268f0cb48bb921db2d90ebe61077af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:24 +0000
Subject: [PATCH 50/58] fix: read documents of a target namespace that is only
 the default namespace

When the target namespace was bound to no prefix, the generated types named
the namespace under no prefix at all, so that yaserde neither knew the
default namespace nor accepted any element of it: every valid document was
refused with "bad namespace". Bind the namespace to the empty prefix.
---
 xsd-parser/src/generator/default.rs | 3 ++-
 xsd-parser/src/generator/enum.rs    | 2 +-
 xsd-parser/src/generator/struct.rs  | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/xsd-parser/src/generator/default.rs b/xsd-parser/src/generator/default.rs
index ecd036f..5bd8094 100644
--- a/xsd-parser/src/generator/default.rs
+++ b/xsd-parser/src/generator/default.rs
@@ -90,7 +90,8 @@ pub fn yaserde_for_element(
     let (prefix, field_name) = if let Some(index) = name.find(':') {
         (Some(&name[0..index]), &name[index + 1..])
     } else {
-        (target_namespace.and_then(|ns| ns.name()), name)
+        // An unprefixed target namespace is bound to the empty prefix
+        (target_namespace.map(|ns| ns.name().unwrap_or("")), name)
     };
 
     match prefix {
diff --git a/xsd-parser/src/generator/enum.rs b/xsd-parser/src/generator/enum.rs
index aab091c..0bb97dd 100644
--- a/xsd-parser/src/generator/enum.rs
+++ b/xsd-parser/src/generator/enum.rs
@@ -76,7 +76,7 @@ pub trait EnumGenerator {
                     uri = tn.uri()
                 ),
                 None => format!(
-                    "{derives}#[yaserde(namespace = \"{uri}\")]\n",
+                    "{derives}#[yaserde(prefix = \"\", default_namespace = \"\", namespace = \"{uri}\")]\n",
                     derives = derives,
                     uri = tn.uri()
                 ),
diff --git a/xsd-parser/src/generator/struct.rs b/xsd-parser/src/generator/struct.rs
index 6f9e1d2..435f608 100644
--- a/xsd-parser/src/generator/struct.rs
+++ b/xsd-parser/src/generator/struct.rs
@@ -90,7 +90,7 @@ pub trait StructGenerator {
                     uri = tn.uri()
                 ),
                 None => format!(
-                    "{derives}#[yaserde(namespace = \"{uri}\")]\n",
+                    "{derives}#[yaserde(prefix = \"\", default_namespace = \"\", namespace = \"{uri}\")]\n",
                     derives = derives,
                     uri = tn.uri()
                 ),
-- 
2.43.0


From 32a61b0025ec60a477c5c9abd0079e86f7647d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:47 +0000
Subject: [PATCH 51/58] fix: length facets with blanks or beyond 32 bits

The number of a length, minLength or maxLength facet was read as a 32-bit
number without trimming, so such schemas made the generator panic.
---
 xsd-parser/src/generator/validator.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/xsd-parser/src/generator/validator.rs b/xsd-parser/src/generator/validator.rs
index 3186aad..baf1f89 100644
--- a/xsd-parser/src/generator/validator.rs
+++ b/xsd-parser/src/generator/validator.rs
@@ -1,4 +1,7 @@
-use std::borrow::Cow;
+use std::{
+    borrow::Cow,
+    num::{IntErrorKind, ParseIntError},
+};
 
 use crate::parser::xsd_elements::FacetType;
 
@@ -50,6 +53,15 @@ pub fn gen_facet_validation(facet: &FacetType, name: &str, typename: &str) -> Co
     }
 }
 
+/// The number of a length facet, which may have blanks around it and any number of digits. A
+/// number too large for a length stands for the largest one.
+fn length_limit(value: &str) -> u64 {
+    value.trim().parse().unwrap_or_else(|e: ParseIntError| match e.kind() {
+        IntErrorKind::PosOverflow => u64::MAX,
+        _ => panic!("Length facet is not a number: {:?}", value),
+    })
+}
+
 fn gen_max_exclusive_validation(value: &str, name: &str, typename: &str) -> String {
     format!(
         r#"
@@ -75,7 +87,7 @@ fn gen_max_inclusive_validation(value: &str, name: &str, typename: &str) -> Stri
 }
 
 fn gen_length_validation(value: &str, name: &str) -> String {
-    let value: u32 = value.parse().unwrap();
+    let value = length_limit(value);
     format!(
         r#"
         if self.{name}.len() != {value} {{
@@ -87,7 +99,7 @@ fn gen_length_validation(value: &str, name: &str) -> String {
 }
 
 fn gen_max_length_validation(value: &str, name: &str) -> String {
-    let value: u32 = value.parse().unwrap();
+    let value = length_limit(value);
     format!(
         r#"
         if self.{name}.len() > {value} {{
@@ -123,7 +135,7 @@ fn gen_min_inclusive_validation(value: &str, name: &str, typename: &str) -> Stri
 }
 
 fn gen_min_length_validation(value: &str, name: &str) -> String {
-    let value: u32 = value.parse().unwrap();
+    let value = length_limit(value);
     if value == 0 {
         return "".into();
     }
-- 
2.43.0


From d919ad2c7ccf56e0f1d652c71189392fabfc6b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:15 +0000
Subject: [PATCH 52/58] fix: bounds with blanks around the number

The blanks were copied into the generated code, where the number then did not
parse and every validation panicked.
---
 xsd-parser/src/generator/validator.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xsd-parser/src/generator/validator.rs b/xsd-parser/src/generator/validator.rs
index baf1f89..5295f14 100644
--- a/xsd-parser/src/generator/validator.rs
+++ b/xsd-parser/src/generator/validator.rs
@@ -36,17 +36,17 @@ pub fn gen_facet_validation(facet: &FacetType, name: &str, typename: &str) -> Co
         FacetType::FractionDigits(_) => "".into(),
         FacetType::Length(value) => gen_length_validation(value.as_str(), name).into(),
         FacetType::MaxExclusive(value) => {
-            gen_max_exclusive_validation(value.as_str(), name, typename).into()
+            gen_max_exclusive_validation(value.trim(), name, typename).into()
         }
         FacetType::MaxInclusive(value) => {
-            gen_max_inclusive_validation(value.as_str(), name, typename).into()
+            gen_max_inclusive_validation(value.trim(), name, typename).into()
         }
         FacetType::MaxLength(value) => gen_max_length_validation(value.as_str(), name).into(),
         FacetType::MinExclusive(value) => {
-            gen_min_exclusive_validation(value.as_str(), name, typename).into()
+            gen_min_exclusive_validation(value.trim(), name, typename).into()
         }
         FacetType::MinInclusive(value) => {
-            gen_min_inclusive_validation(value.as_str(), name, typename).into()
+            gen_min_inclusive_validation(value.trim(), name, typename).into()
         }
         FacetType::MinLength(value) => gen_min_length_validation(value.as_str(), name).into(),
         _ => "".into(), // TODO: All Facet Types
-- 
2.43.0


From dc7d1ae2a08fc526873f742094fbf3059e32131f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:04 +0000
Subject: [PATCH 53/58] fix: an empty choice stays empty with an annotation in
 it

---
 xsd-parser/src/parser/complex_type.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xsd-parser/src/parser/complex_type.rs b/xsd-parser/src/parser/complex_type.rs
index d31c620..0371b4d 100644
--- a/xsd-parser/src/parser/complex_type.rs
+++ b/xsd-parser/src/parser/complex_type.rs
@@ -37,7 +37,8 @@ pub fn parse_complex_type(node: &Node, parent: &Node) -> RsEntity {
         .filter(|n| n.is_element() && AVAILABLE_CONTENT_TYPES.contains(&n.xsd_type()))
         .last();
 
-    if content.is_none() || content.unwrap().children().filter(|n| n.is_element()).count() == 0 {
+    let is_content = |n: &Node| n.is_element() && n.xsd_type() != ElementType::Annotation;
+    if content.is_none() || content.unwrap().children().filter(is_content).count() == 0 {
         //No content (or empty), only attributes
 
         return RsEntity::Struct(Struct {
-- 
2.43.0


From 249d9553fa29653b22c9b19159541786166c944a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:33 +0000
Subject: [PATCH 54/58] fix: names of the xml namespace are not names of the
 schema

---
 xsd-parser/src/parser/utils.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xsd-parser/src/parser/utils.rs b/xsd-parser/src/parser/utils.rs
index 6bcb80c..d657665 100644
--- a/xsd-parser/src/parser/utils.rs
+++ b/xsd-parser/src/parser/utils.rs
@@ -72,7 +72,12 @@ pub fn is_enclosing_type(node: &Node, type_name: &str) -> bool {
 
 /// Whether a prefix is bound at `node` to another namespace than the target namespace
 fn is_foreign(node: &Node, schema: &Node, prefix: Option<&str>) -> bool {
-    match node.lookup_namespace_uri(prefix) {
+    let uri = match prefix {
+        // Bound without a declaration
+        Some("xml") => Some("http://www.w3.org/XML/1998/namespace"),
+        _ => node.lookup_namespace_uri(prefix),
+    };
+    match uri {
         Some(uri) => schema.attribute(attribute::TARGET_NAMESPACE) != Some(uri),
         None => false,
     }
-- 
2.43.0


From 86cb8a61ba4990e86e5d3c3aa694d578f5fc643a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:41 +0000
Subject: [PATCH 55/58] fix: elements of other namespaces are not taken for
 those of WSDL

---
 wsdl-parser/src/parser/constants.rs |  3 +++
 wsdl-parser/src/parser/mod.rs       |  5 ++++-
 wsdl-parser/src/parser/types.rs     | 11 ++++++++++-
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/wsdl-parser/src/parser/constants.rs b/wsdl-parser/src/parser/constants.rs
index 5bf1418..662ffe0 100644
--- a/wsdl-parser/src/parser/constants.rs
+++ b/wsdl-parser/src/parser/constants.rs
@@ -1,3 +1,6 @@
+pub const WSDL_NAMESPACE: &str = "http://schemas.xmlsoap.org/wsdl/";
+pub const XSD_NAMESPACE: &str = "http://www.w3.org/2001/XMLSchema";
+
 pub mod attribute {
     pub const NAME: &str = "name";
     pub const TYPE: &str = "type";
diff --git a/wsdl-parser/src/parser/mod.rs b/wsdl-parser/src/parser/mod.rs
index 8826913..8ca745a 100644
--- a/wsdl-parser/src/parser/mod.rs
+++ b/wsdl-parser/src/parser/mod.rs
@@ -34,7 +34,10 @@ pub enum ElementType {
 impl<'a> WsdlElement for roxmltree::Node<'a, '_> {
     fn wsdl_type(&self) -> ElementType {
         use ElementType::*;
-        // TODO: check for wsdl prefix
+        // Elements of other namespaces are extensions, whatever their names
+        if self.tag_name().namespace().map_or(false, |uri| uri != constants::WSDL_NAMESPACE) {
+            return UnknownElement(self.tag_name().name().to_string());
+        }
         match self.tag_name().name() {
             "binding" => Binding,
             "definitions" => Definitions,
diff --git a/wsdl-parser/src/parser/types.rs b/wsdl-parser/src/parser/types.rs
index 5f9786f..bb7da88 100644
--- a/wsdl-parser/src/parser/types.rs
+++ b/wsdl-parser/src/parser/types.rs
@@ -1,5 +1,7 @@
 use roxmltree::Node;
 
+use crate::parser::constants::XSD_NAMESPACE;
+
 // Content: Sequence [1..1]
 // wsdl:documentation [0..1]   from type wsdl:tDocumented
 // Any element [0..*] Namespace: ##other, Process Contents: lax  from type wsdl:tExtensibleDocumented
@@ -20,6 +22,13 @@ impl<'a> Types<'a> {
     }
 
     pub fn schemas(&self) -> Vec<Node<'_, '_>> {
-        self.node.children().filter(|n| n.is_element() && n.tag_name().name() == "schema").collect()
+        self.node
+            .children()
+            .filter(|n| {
+                n.is_element()
+                    && n.tag_name().name() == "schema"
+                    && n.tag_name().namespace().map_or(true, |uri| uri == XSD_NAMESPACE)
+            })
+            .collect()
     }
 }
-- 
2.43.0


From afa0dcabd53fc254f6ccf0bf64bda67921efc2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:55 +0000
Subject: [PATCH 56/58] fix: the default positiveInteger and negativeInteger is
 in the value space

---
 xsd-types/src/types/negative_integer.rs | 9 ++++++++-
 xsd-types/src/types/positive_integer.rs | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/xsd-types/src/types/negative_integer.rs b/xsd-types/src/types/negative_integer.rs
index 009a293..74a77e0 100644
--- a/xsd-types/src/types/negative_integer.rs
+++ b/xsd-types/src/types/negative_integer.rs
@@ -4,7 +4,7 @@ use num_bigint::{BigInt, ToBigInt};
 use xsd_macro_utils::UtilsDefaultSerde;
 
 // https://www.w3.org/TR/xmlschema-2/#negativeInteger
-#[derive(Default, Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
+#[derive(Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
 pub struct NegativeInteger(pub BigInt);
 
 impl NegativeInteger {
@@ -19,6 +19,13 @@ impl ToBigInt for NegativeInteger {
     }
 }
 
+impl Default for NegativeInteger {
+    // Zero is not in the value space
+    fn default() -> Self {
+        NegativeInteger(BigInt::from(-1))
+    }
+}
+
 impl FromStr for NegativeInteger {
     type Err = String;
 
diff --git a/xsd-types/src/types/positive_integer.rs b/xsd-types/src/types/positive_integer.rs
index ea98080..4a6f5dd 100644
--- a/xsd-types/src/types/positive_integer.rs
+++ b/xsd-types/src/types/positive_integer.rs
@@ -4,7 +4,7 @@ use num_bigint::{BigUint, ToBigUint};
 use xsd_macro_utils::UtilsDefaultSerde;
 
 // https://www.w3.org/TR/xmlschema-2/#positiveInteger
-#[derive(Default, Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
+#[derive(Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
 pub struct PositiveInteger(pub BigUint);
 
 impl PositiveInteger {
@@ -19,6 +19,13 @@ impl ToBigUint for PositiveInteger {
     }
 }
 
+impl Default for PositiveInteger {
+    // Zero is not in the value space
+    fn default() -> Self {
+        PositiveInteger(BigUint::from(1u32))
+    }
+}
+
 impl FromStr for PositiveInteger {
     type Err = String;
 
-- 
2.43.0


From 574f991db82713c900e039389a34e8408e650d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:11 +0000
Subject: [PATCH 57/58] fix: parts whose names are no Rust identifiers give
 parameters that are

---
 wsdl-parser/src/generator/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wsdl-parser/src/generator/mod.rs b/wsdl-parser/src/generator/mod.rs
index 09b6b57..32f2560 100644
--- a/wsdl-parser/src/generator/mod.rs
+++ b/wsdl-parser/src/generator/mod.rs
@@ -42,7 +42,7 @@ fn generate_function(func: &Function<'_>, target_ns: Option<&Namespace>) -> Stri
         arguments = func
             .arguments
             .iter()
-            .map(|p| format!("{}: &{}", p.name, ftype(p.typename)))
+            .map(|p| format!("{}: &{}", default_format_name(p.name), ftype(p.typename)))
             .collect::<Vec<String>>()
             .join(",\n    "),
         return_type = match func.return_type {
-- 
2.43.0


From 8bed0e3c1da4504c926ecf159ee92629e91e65cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:29 +0000
Subject: [PATCH 58/58] fix: a part that gives a type made the generator panic,
 or gave unit

---
 wsdl-parser/src/generator/function.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wsdl-parser/src/generator/function.rs b/wsdl-parser/src/generator/function.rs
index bfcd1c4..ee233d9 100644
--- a/wsdl-parser/src/generator/function.rs
+++ b/wsdl-parser/src/generator/function.rs
@@ -56,7 +56,8 @@ impl<'a> Function<'a> {
             generic_params: vec![GENERIC_TRANSPORT],
             arguments: get_input_params(input_message),
             return_type: output_message
-                .and_then(|m| m.parts().first().and_then(|part| part.element()))
+                .and_then(|m| m.parts().first())
+                .map(|part| Param::new(part).typename)
                 .unwrap_or_default(),
             documentation: operation.documentation(),
             name: operation.name(),
@@ -73,7 +74,7 @@ fn get_input_params<'a>(input: Option<&'a Message<'_>>) -> Vec<Param<'a>> {
 
     if input.parts().len() == 1 {
         // ONVIF case
-        result.push(Param { name: "request", typename: input.parts()[0].element().unwrap() })
+        result.push(Param { name: "request", ..Param::new(&input.parts()[0]) })
     } else {
         result.append(&mut input.parts().iter().map(Param::new).collect());
     };
-- 
2.43.0

