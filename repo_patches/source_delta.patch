From 36837f3b6e5aff21a2961e75ea3c31afab5bab30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:17:55 +0000
Subject: [PATCH 1/8] fix: report a bad checksum instead of overflowing when
 the checksum column is below '0'

A blank or punctuation byte in column 69 made the subtraction overflow and panic in debug builds.
---
 src/tle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tle.rs b/src/tle.rs
index 496ded3..5896aab 100644
--- a/src/tle.rs
+++ b/src/tle.rs
@@ -640,7 +640,7 @@ impl Elements {
                     _ => accumulator,
                 })
                 % 10) as u8
-                != content[68] - b'0'
+                != content[68].wrapping_sub(b'0')
             {
                 return Err(Error {
                     what: ErrorWhat::BadChecksum,
-- 
2.43.0


From fbb17c1a463f0bab5f7f14a5610c64b00615decc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:17:55 +0000
Subject: [PATCH 2/8] fix: do not build strings from unvalidated bytes

TLE fields may hold any bytes, which from_utf8_unchecked forbids.
A field that is not UTF-8 is now parsed as an empty field, which is an error.
---
 src/tle.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/tle.rs b/src/tle.rs
index 5896aab..70b80b9 100644
--- a/src/tle.rs
+++ b/src/tle.rs
@@ -112,31 +112,27 @@ trait FromU8: Sized {
 impl FromU8 for i8 {
     type Err = core::num::ParseIntError;
     fn from_u8(s: &[u8]) -> core::result::Result<Self, Self::Err> {
-        // unsafe: parse calls from_str_radix which converts back to bytes.
-        unsafe { core::str::from_utf8_unchecked(s) }.parse()
+        core::str::from_utf8(s).unwrap_or_default().parse()
     }
 }
 
 impl FromU8 for u8 {
     type Err = core::num::ParseIntError;
     fn from_u8(s: &[u8]) -> core::result::Result<Self, Self::Err> {
-        // unsafe: parse calls from_str_radix which converts back to bytes.
-        unsafe { core::str::from_utf8_unchecked(s) }.parse()
+        core::str::from_utf8(s).unwrap_or_default().parse()
     }
 }
 
 impl FromU8 for u64 {
     type Err = core::num::ParseIntError;
     fn from_u8(s: &[u8]) -> core::result::Result<Self, Self::Err> {
-        // unsafe: parse calls from_str_radix which converts back to bytes.
-        unsafe { core::str::from_utf8_unchecked(s) }.parse()
+        core::str::from_utf8(s).unwrap_or_default().parse()
     }
 }
 impl FromU8 for f64 {
     type Err = core::num::ParseFloatError;
     fn from_u8(s: &[u8]) -> core::result::Result<Self, Self::Err> {
-        // unsafe: parse calls dec2flt which converts back to bytes.
-        unsafe { core::str::from_utf8_unchecked(s) }.parse()
+        core::str::from_utf8(s).unwrap_or_default().parse()
     }
 }
 
-- 
2.43.0


From beaf6a2e0c91142ae72c071960db05d18b3cd659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:17:55 +0000
Subject: [PATCH 3/8] fix: reject OMM numbers that do not fit the ephemeris
 type

A JSON number above 255 was silently truncated, whereas the same number in a string was rejected.
---
 src/tle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tle.rs b/src/tle.rs
index 70b80b9..a60357d 100644
--- a/src/tle.rs
+++ b/src/tle.rs
@@ -420,7 +420,7 @@ where
 {
     match serde_json::value::Value::deserialize(deserializer)? {
         serde_json::value::Value::Number(number) => match number.as_u64() {
-            Some(value) => Ok(value as u8),
+            Some(value) => u8::try_from(value).map_err(serde::de::Error::custom),
             None => Err(serde::de::Error::custom("parsing the number as u64 failed")),
         },
         serde_json::value::Value::String(string) => {
-- 
2.43.0


From b2aaef85f846eaa8d16b3b941c8dd455667569dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:17:55 +0000
Subject: [PATCH 4/8] fix: use signed years in the AFSPC epoch expression

Years up to 0 were converted to huge unsigned numbers, which overflowed and panicked in debug builds.
---
 src/tle.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/tle.rs b/src/tle.rs
index a60357d..8587b29 100644
--- a/src/tle.rs
+++ b/src/tle.rs
@@ -472,10 +472,9 @@ pub fn julian_years_since_j2000_afspc_compatibility_mode(datetime: &chrono::Naiv
     //         + (((nsᵤ / 10⁹ + sᵤ) / 60 + minᵤ) / 60 + hᵤ) / 24
     //         - 2451545)
     //         / 365.25
-    ((367 * datetime.year() as u32
-        - (7 * (datetime.year() as u32 + (datetime.month() + 9) / 12)) / 4
-        + 275 * datetime.month() / 9
-        + datetime.day()) as f64
+    ((367 * datetime.year() - (7 * (datetime.year() + (datetime.month() as i32 + 9) / 12)) / 4
+        + 275 * datetime.month() as i32 / 9
+        + datetime.day() as i32) as f64
         + 1721013.5
         + (((datetime.nanosecond() as f64 / 1e9 + datetime.second() as f64) / 60.0
             + datetime.minute() as f64)
-- 
2.43.0


From e3e24f3dc28824a92a9a2a7cb67fb32483f58b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:17:55 +0000
Subject: [PATCH 5/8] fix: refuse to convert minutes that are not a number to a
 date

NaN was converted to the epoch itself.
2^63 nanoseconds, which does not fit an i64, was accepted too.
---
 src/tle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tle.rs b/src/tle.rs
index 8587b29..e4b113a 100644
--- a/src/tle.rs
+++ b/src/tle.rs
@@ -910,7 +910,7 @@ impl Elements {
         minutes_since_epoch: &MinutesSinceEpoch,
     ) -> core::result::Result<chrono::NaiveDateTime, MinutesSinceEpochToDatetimeError> {
         let nanoseconds = minutes_since_epoch.0 * 60e9;
-        if nanoseconds > i64::MAX as f64 || nanoseconds < i64::MIN as f64 {
+        if !(i64::MIN as f64..i64::MAX as f64).contains(&nanoseconds) {
             Err(MinutesSinceEpochToDatetimeError::MinutesToNanoseconds(
                 minutes_since_epoch.0,
             ))
-- 
2.43.0


From 7c1e23a0f814680b41e29c03c07edf945d8f6a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:17:55 +0000
Subject: [PATCH 6/8] fix: refuse mean motions and eccentricities that are not
 a number

The range tests of the constructors were false for NaN, so that such elements initialised a propagator.
---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2760f85..2b546ea 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -200,7 +200,7 @@ impl Orbit {
         mean_anomaly: f64,
         kozai_mean_motion: f64,
     ) -> core::result::Result<Self, KozaiElementsError> {
-        if kozai_mean_motion <= 0.0 {
+        if kozai_mean_motion.is_nan() || kozai_mean_motion <= 0.0 {
             Err(KozaiElementsError::NegativeKozaiMeanMotion)
         } else {
             let mean_motion = {
@@ -291,7 +291,7 @@ impl Constants {
         drag_term: f64,
         orbit_0: propagator::Orbit,
     ) -> core::result::Result<Self, OutOfRangeEpochEccentricity> {
-        if orbit_0.eccentricity < 0.0 || orbit_0.eccentricity >= 1.0 {
+        if !(0.0..1.0).contains(&orbit_0.eccentricity) {
             Err(OutOfRangeEpochEccentricity(orbit_0.eccentricity))
         } else {
             // p₁ = cos I₀
-- 
2.43.0


From 22be558316ff8754f3938558868c2f58f21c6a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:17:55 +0000
Subject: [PATCH 7/8] fix: stop the resonance integration when the time is not
 finite

Propagating a resonant orbit to NaN or an infinite time never returned.
It now yields an out-of-range eccentricity error.
---
 src/deep_space.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/deep_space.rs b/src/deep_space.rs
index 1ff5c48..8293303 100644
--- a/src/deep_space.rs
+++ b/src/deep_space.rs
@@ -103,6 +103,10 @@ impl ResonanceState {
         {
             panic!("the resonance integration state must be manually reset if the target times are non-monotonic");
         }
+        if !t.is_finite() {
+            // there is no number of steps to reach t, the caller reports the resulting elements as out of range
+            return (f64::NAN, f64::NAN);
+        }
         // θ = θ₀ + 4.37526908801129966 × 10⁻³ t rem 2π
         #[allow(clippy::excessive_precision)]
         let sidereal_time =
-- 
2.43.0


From f919c3f88783e3431877466320e3d796f9bb49a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:02:34 +0000
Subject: [PATCH 8/8] fix: report a sign without digits as a malformed number
 instead of a too long one

A field with an assumed decimal point that holds only a sign was refused
with an error saying that it has more than 16 characters.
---
 src/tle.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tle.rs b/src/tle.rs
index e4b113a..9881460 100644
--- a/src/tle.rs
+++ b/src/tle.rs
@@ -174,7 +174,7 @@ impl DecimalPointAssumedRepresentation for [u8] {
         let mut raw_buffer = [0u8; 16];
         let length;
         if trimmed[0] == b'-' {
-            if trimmed.len() < 2 || trimmed.len() + 1 > raw_buffer.len() {
+            if trimmed.len() + 1 > raw_buffer.len() {
                 return Err(Error {
                     what: ErrorWhat::FloatWithAssumedDecimalPointTooLong,
                     line,
@@ -187,7 +187,7 @@ impl DecimalPointAssumedRepresentation for [u8] {
             raw_buffer[2..trimmed.len() + 1].copy_from_slice(&trimmed[1..]);
             length = trimmed.len() + 1;
         } else if trimmed[0] == b'+' {
-            if trimmed.len() < 2 || trimmed.len() > raw_buffer.len() {
+            if trimmed.len() > raw_buffer.len() {
                 return Err(Error {
                     what: ErrorWhat::FloatWithAssumedDecimalPointTooLong,
                     line,
-- 
2.43.0

