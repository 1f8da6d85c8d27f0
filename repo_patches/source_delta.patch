From 9accb24e9f6629f6e826621bddaade8d88d96e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:52 +0000
Subject: [PATCH 01/72] fix: do not panic when validating a large int as
 complex

---
 src/input/input_python.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/input/input_python.rs b/src/input/input_python.rs
index e82cbae..c213b4f 100644
--- a/src/input/input_python.rs
+++ b/src/input/input_python.rs
@@ -657,10 +657,10 @@ impl<'py> Input<'py> for Bound<'py, PyAny> {
                 0.0,
             ])));
         } else if self.is_exact_instance_of::<PyInt>() {
-            return Ok(ValidationMatch::lax(EitherComplex::Complex([
-                self.extract::<i64>().unwrap() as f64,
-                0.0,
-            ])));
+            // ints which don't fit into a float can't be converted to complex
+            if let Ok(float) = self.extract::<f64>() {
+                return Ok(ValidationMatch::lax(EitherComplex::Complex([float, 0.0])));
+            }
         }
         Err(ValError::new(ErrorTypeDefaults::ComplexType, self))
     }
-- 
2.43.0


From 70f77824f64953383907033ebfe380d50e721fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:52 +0000
Subject: [PATCH 02/72] fix: respect the strict argument of validate_*() in the
 complex validator

---
 src/validators/complex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validators/complex.rs b/src/validators/complex.rs
index 98ffc7d..a0341a1 100644
--- a/src/validators/complex.rs
+++ b/src/validators/complex.rs
@@ -45,7 +45,7 @@ impl Validator for ComplexValidator {
         input: &(impl Input<'py> + ?Sized),
         state: &mut ValidationState<'_, 'py>,
     ) -> ValResult<PyObject> {
-        let res = input.validate_complex(self.strict, py)?.unpack(state);
+        let res = input.validate_complex(state.strict_or(self.strict), py)?.unpack(state);
         Ok(res.into_pyobject(py)?.into())
     }
 
-- 
2.43.0


From e405d6bf561cea870cd2b4b27cdf8ac71684e32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:52 +0000
Subject: [PATCH 03/72] fix: reject a minus sign after leading zeros (e.g.
 '0-1') when parsing a string as an int

---
 src/input/shared.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input/shared.rs b/src/input/shared.rs
index 1a90b41..dac0faa 100644
--- a/src/input/shared.rs
+++ b/src/input/shared.rs
@@ -186,8 +186,8 @@ fn strip_leading_zeros(s: &str) -> Option<&str> {
         match c {
             // continue on more leading zeros or if we get an underscore we continue - we're "within the number"
             '0' | '_' => (),
-            // any other digit or unary minus we return the rest of the string
-            '1'..='9' | '-' => return Some(&s[i..]),
+            // any other digit we return the rest of the string
+            '1'..='9' => return Some(&s[i..]),
             // if we get a dot we return the rest of the string but include the last zero
             '.' => return Some(&s[(i - 1)..]),
             // anything else is invalid, we return None
-- 
2.43.0


From 801be8f827530e2f7b9b6da5be6489897e362e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:32 +0000
Subject: [PATCH 04/72] fix: negative float timestamps were off by twice their
 fraction (-1.25 gave 58.25 not 58.75)

---
 src/input/datetime.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/input/datetime.rs b/src/input/datetime.rs
index e1b3b37..5c91e43 100644
--- a/src/input/datetime.rs
+++ b/src/input/datetime.rs
@@ -422,7 +422,8 @@ macro_rules! nan_check {
 
 pub fn float_as_datetime<'py>(input: &(impl Input<'py> + ?Sized), timestamp: f64) -> ValResult<EitherDateTime<'py>> {
     nan_check!(input, timestamp, DatetimeParsing);
-    let microseconds = timestamp.fract().abs() * 1_000_000.0;
+    // the distance from the floor, not from zero: they differ for negative timestamps
+    let microseconds = (timestamp - timestamp.floor()) * 1_000_000.0;
     // checking for extra digits in microseconds is unreliable with large floats,
     // so we just round to the nearest microsecond
     int_as_datetime(input, timestamp.floor() as i64, microseconds.round() as u32)
-- 
2.43.0


From 62ee3cda43682f8e7a4297ad30ddcbbb08088600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:32 +0000
Subject: [PATCH 05/72] fix: the fraction of a float timestamp in milliseconds
 was taken for a fraction of a second

---
 src/input/datetime.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/input/datetime.rs b/src/input/datetime.rs
index 5c91e43..c43dade 100644
--- a/src/input/datetime.rs
+++ b/src/input/datetime.rs
@@ -420,13 +420,19 @@ macro_rules! nan_check {
     };
 }
 
+/// Timestamps with a larger absolute value are in milliseconds, this matches speedate
+const MS_WATERSHED: f64 = 20_000_000_000.0;
+
 pub fn float_as_datetime<'py>(input: &(impl Input<'py> + ?Sized), timestamp: f64) -> ValResult<EitherDateTime<'py>> {
     nan_check!(input, timestamp, DatetimeParsing);
+    let whole = timestamp.floor();
+    // as for ints, timestamps above the watershed are in milliseconds
+    let micros_per_unit = if whole.abs() > MS_WATERSHED { 1_000.0 } else { 1_000_000.0 };
     // the distance from the floor, not from zero: they differ for negative timestamps
-    let microseconds = (timestamp - timestamp.floor()) * 1_000_000.0;
+    let microseconds = (timestamp - whole) * micros_per_unit;
     // checking for extra digits in microseconds is unreliable with large floats,
     // so we just round to the nearest microsecond
-    int_as_datetime(input, timestamp.floor() as i64, microseconds.round() as u32)
+    int_as_datetime(input, whole as i64, microseconds.round() as u32)
 }
 
 pub fn date_as_datetime<'py>(date: &Bound<'py, PyDate>) -> PyResult<EitherDateTime<'py>> {
-- 
2.43.0


From eedc1d507935e0cbb233e6d738d660e9566371e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:32 +0000
Subject: [PATCH 06/72] fix: ints which are too large for a timedelta were
 wrapped around instead of being rejected

---
 src/input/datetime.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input/datetime.rs b/src/input/datetime.rs
index c43dade..5755a86 100644
--- a/src/input/datetime.rs
+++ b/src/input/datetime.rs
@@ -529,8 +529,8 @@ pub fn bytes_as_timedelta<'py>(
 pub fn int_as_duration(input: impl ToErrorValue, total_seconds: i64) -> ValResult<Duration> {
     let positive = total_seconds >= 0;
     let total_seconds = total_seconds.unsigned_abs();
-    // we can safely unwrap here since we've guaranteed seconds and microseconds can't cause overflow
-    let days = (total_seconds / 86400) as u32;
+    // too many days for a u32 is also too many for a duration, `Duration::new` returns an error in that case
+    let days = u32::try_from(total_seconds / 86400).unwrap_or(u32::MAX);
     let seconds = (total_seconds % 86400) as u32;
     Duration::new(positive, days, seconds, 0).map_err(|err| map_timedelta_err(input, err))
 }
-- 
2.43.0


From 2d7cae2b7950a7e8c7e68160337e00044e1eb681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:32 +0000
Subject: [PATCH 07/72] fix: do not panic on an int of -2**63 with
 multiple_of=-1

---
 src/input/return_enums.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/input/return_enums.rs b/src/input/return_enums.rs
index 6ac3824..53b97f8 100644
--- a/src/input/return_enums.rs
+++ b/src/input/return_enums.rs
@@ -707,7 +707,8 @@ impl Rem for &Int {
 
     fn rem(self, rhs: Self) -> Self::Output {
         match (self, rhs) {
-            (Int::I64(i1), Int::I64(i2)) => Int::I64(i1 % i2),
+            // wrapping only matters for `i64::MIN % -1`, which is 0
+            (Int::I64(i1), Int::I64(i2)) => Int::I64(i1.wrapping_rem(*i2)),
             (Int::Big(b1), Int::Big(b2)) => Int::Big(b1 % b2),
             (Int::I64(i), Int::Big(b)) => Int::Big(BigInt::from(*i) % b),
             (Int::Big(b), Int::I64(i)) => Int::Big(b % BigInt::from(*i)),
-- 
2.43.0


From 031c466d2f88a81b3b9ea1fd333c9cea6c936389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:32 +0000
Subject: [PATCH 08/72] fix: the int validator returned the value of any enum
 member unchanged, even if it was not an int

---
 src/input/input_python.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input/input_python.rs b/src/input/input_python.rs
index c213b4f..df4eac0 100644
--- a/src/input/input_python.rs
+++ b/src/input/input_python.rs
@@ -271,8 +271,8 @@ impl<'py> Input<'py> for Bound<'py, PyAny> {
                     decimal_as_int(self, &decimal.into_inner())
                 } else if let Ok(float) = self.extract::<f64>() {
                     float_as_int(self, float)
-                } else if let Some(enum_val) = maybe_as_enum(self) {
-                    Ok(EitherInt::Py(enum_val))
+                } else if let Some(enum_val) = maybe_as_enum(self).filter(|v| v.is_instance_of::<PyInt>()) {
+                    EitherInt::upcast(&enum_val)
                 } else {
                     break 'lax;
                 }
-- 
2.43.0


From a8ac2a073fbadd521c4fce8f6b4797fba08d4352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:59 +0000
Subject: [PATCH 09/72] fix: digits past the precision of the decimal context
 were not counted for max_digits and decimal_places

---
 src/validators/decimal.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/validators/decimal.rs b/src/validators/decimal.rs
index a2a9e0b..5474068 100644
--- a/src/validators/decimal.rs
+++ b/src/validators/decimal.rs
@@ -102,19 +102,29 @@ impl_py_gc_traverse!(DecimalValidator {
 
 fn extract_decimal_digits_info(decimal: &Bound<'_, PyAny>, normalized: bool) -> ValResult<(u64, u64)> {
     let py = decimal.py();
-    let mut normalized_decimal: Option<Bound<'_, PyAny>> = None;
-    if normalized {
-        normalized_decimal = decimal.call_method0(intern!(py, "normalize")).ok();
-    }
-    let (_, digit_tuple, exponent): (Bound<'_, PyAny>, Bound<'_, PyTuple>, Bound<'_, PyAny>) = normalized_decimal
-        .as_ref()
-        .unwrap_or(decimal)
-        .call_method0(intern!(py, "as_tuple"))?
-        .extract()?;
+    let (_, digit_tuple, exponent): (Bound<'_, PyAny>, Bound<'_, PyTuple>, Bound<'_, PyAny>) =
+        decimal.call_method0(intern!(py, "as_tuple"))?.extract()?;
 
     // finite values have numeric exponent, we checked is_finite above
-    let exponent: i64 = exponent.extract()?;
+    let mut exponent: i64 = exponent.extract()?;
     let mut digits: u64 = u64::try_from(digit_tuple.len()).map_err(|e| ValError::InternalErr(e.into()))?;
+    if normalized {
+        // Remove trailing zeros. `Decimal.normalize()` can't be used for this since it rounds the value to the
+        // precision of the current decimal context, hence would hide all digits past that.
+        let mut trailing_zeros: u64 = 0;
+        for i in (0..digit_tuple.len()).rev() {
+            if digit_tuple.get_item(i)?.extract::<u8>()? != 0 {
+                break;
+            }
+            trailing_zeros += 1;
+        }
+        if trailing_zeros == digits {
+            // zero, which is normalized to `0`
+            return Ok((0, 1));
+        }
+        digits -= trailing_zeros;
+        exponent += trailing_zeros as i64;
+    }
     let decimals;
     if exponent >= 0 {
         // A positive exponent adds that many trailing zeros.
-- 
2.43.0


From d515d42d16e6bf34a3aab2eda6e8a5051f544ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:59 +0000
Subject: [PATCH 10/72] fix: reject double underscores within the leading zeros
 of an int string (e.g. '0__1')

---
 src/input/shared.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/input/shared.rs b/src/input/shared.rs
index dac0faa..cfa8aee 100644
--- a/src/input/shared.rs
+++ b/src/input/shared.rs
@@ -138,6 +138,11 @@ fn clean_int_str(mut s: &str) -> Option<Cow<str>> {
         s = suffix;
     }
 
+    // double consecutive underscores are not valid, not even within leading zeros
+    if s.contains("__") {
+        return None;
+    }
+
     // strip loading zeros
     s = strip_leading_zeros(s)?;
 
-- 
2.43.0


From 3c6a02b6930b5701dfec7eb4c251927e4bdc12a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:47 +0000
Subject: [PATCH 11/72] fix: durations just below timedelta.min raised
 OverflowError instead of a validation error

---
 src/input/datetime.rs       | 17 ++++++++++++++++-
 src/validators/timedelta.rs |  2 +-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/input/datetime.rs b/src/input/datetime.rs
index 5755a86..369551b 100644
--- a/src/input/datetime.rs
+++ b/src/input/datetime.rs
@@ -122,7 +122,22 @@ impl From<Duration> for EitherTimedelta<'_> {
     }
 }
 
-impl EitherTimedelta<'_> {
+impl<'py> EitherTimedelta<'py> {
+    pub fn try_into_py(self, py: Python<'py>, input: &(impl Input<'py> + ?Sized)) -> ValResult<Bound<'py, PyDelta>> {
+        match self {
+            // the most negative timedelta is exactly -999,999,999 days, while durations are limited by
+            // their number of whole days, e.g. "-P999999999DT1S" is a valid duration but not a valid timedelta
+            Self::Raw(duration)
+                if !duration.positive
+                    && duration.day >= 999_999_999
+                    && (duration.second, duration.microsecond) != (0, 0) =>
+            {
+                Err(map_timedelta_err(input, ParseError::DurationDaysTooLarge))
+            }
+            either => Ok(either.into_pyobject(py)?),
+        }
+    }
+
     pub fn to_duration(&self) -> PyResult<Duration> {
         match self {
             Self::Raw(timedelta) => Ok(timedelta.clone()),
diff --git a/src/validators/timedelta.rs b/src/validators/timedelta.rs
index d1d6ff3..efc0efe 100644
--- a/src/validators/timedelta.rs
+++ b/src/validators/timedelta.rs
@@ -79,7 +79,7 @@ impl Validator for TimeDeltaValidator {
         let timedelta = input
             .validate_timedelta(state.strict_or(self.strict), self.microseconds_precision)?
             .unpack(state);
-        let py_timedelta = timedelta.clone().into_pyobject(py)?;
+        let py_timedelta = timedelta.clone().try_into_py(py, input)?;
         if let Some(constraints) = &self.constraints {
             let raw_timedelta = timedelta.to_duration()?;
 
-- 
2.43.0


From 3e48c75aae4e015ed8320ba2c4ca6d97b44f9e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:09 +0000
Subject: [PATCH 12/72] fix: hash of TzInfo differed from that of an equal
 datetime.timezone

---
 src/input/datetime.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/input/datetime.rs b/src/input/datetime.rs
index 369551b..e222aa5 100644
--- a/src/input/datetime.rs
+++ b/src/input/datetime.rs
@@ -9,10 +9,7 @@ use pyo3::IntoPyObjectExt;
 use speedate::MicrosecondsPrecisionOverflowBehavior;
 use speedate::{Date, DateTime, Duration, ParseError, Time, TimeConfig};
 use std::borrow::Cow;
-use std::collections::hash_map::DefaultHasher;
 use std::fmt::Write;
-use std::hash::Hash;
-use std::hash::Hasher;
 
 use strum::EnumMessage;
 
@@ -619,10 +616,9 @@ impl TzInfo {
         result
     }
 
-    fn __hash__(&self) -> u64 {
-        let mut hasher = DefaultHasher::new();
-        self.seconds.hash(&mut hasher);
-        hasher.finish()
+    /// Equal to the hash of a `datetime.timezone` with the same offset, since they compare equal
+    fn __hash__(&self, py: Python<'_>) -> PyResult<isize> {
+        PyDelta::new(py, 0, self.seconds, 0, true)?.hash()
     }
 
     fn __richcmp__(&self, other: &Bound<'_, PyAny>, op: CompareOp) -> PyResult<Py<PyAny>> {
-- 
2.43.0


From a315f0e09e59ddb5973d87dd4d31e821e69671ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:02 +0000
Subject: [PATCH 13/72] fix: location of an iteration error in a tuple was off
 by one

---
 src/validators/tuple.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/validators/tuple.rs b/src/validators/tuple.rs
index e49d6a9..1f0f614 100644
--- a/src/validators/tuple.rs
+++ b/src/validators/tuple.rs
@@ -348,9 +348,11 @@ where
                         if iteration_error.is_some() {
                             return None;
                         }
-                        index += 1;
                         match iterator.next() {
-                            Some(Ok(item)) => Some(item),
+                            Some(Ok(item)) => {
+                                index += 1;
+                                Some(item)
+                            }
                             Some(Err(e)) => {
                                 *iteration_error = Some(ValError::new_with_loc(
                                     ErrorType::IterationError {
-- 
2.43.0


From 657691ef9ca850949f6fd2d57756a7a2d61ac07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:19 +0000
Subject: [PATCH 14/72] fix: max_length of a generator without items_schema was
 ignored

---
 src/validators/generator.rs | 54 ++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/src/validators/generator.rs b/src/validators/generator.rs
index 12d76b3..89e75e0 100644
--- a/src/validators/generator.rs
+++ b/src/validators/generator.rs
@@ -124,36 +124,36 @@ impl ValidatorIterator {
         macro_rules! next {
             ($iter:ident) => {
                 match $iter.next(py)? {
-                    Some((next, index)) => match validator {
-                        Some(validator) => {
-                            if let Some(max_length) = max_length {
-                                if index >= max_length {
-                                    let val_error = ValError::new_custom_input(
-                                        ErrorType::TooLong {
-                                            field_type: "Generator".to_string(),
-                                            max_length,
-                                            actual_length: None,
-                                            context: None,
-                                        },
-                                        $iter.input_as_error_value(py),
-                                    );
-                                    return Err(ValidationError::from_val_error(
-                                        py,
-                                        "ValidatorIterator".into_pyobject(py)?.into(),
-                                        InputType::Python,
-                                        val_error,
-                                        None,
-                                        hide_input_in_errors,
-                                        validation_error_cause,
-                                    ));
-                                }
+                    Some((next, index)) => {
+                        if let Some(max_length) = max_length {
+                            if index >= max_length {
+                                let val_error = ValError::new_custom_input(
+                                    ErrorType::TooLong {
+                                        field_type: "Generator".to_string(),
+                                        max_length,
+                                        actual_length: None,
+                                        context: None,
+                                    },
+                                    $iter.input_as_error_value(py),
+                                );
+                                return Err(ValidationError::from_val_error(
+                                    py,
+                                    "ValidatorIterator".into_pyobject(py)?.into(),
+                                    InputType::Python,
+                                    val_error,
+                                    None,
+                                    hide_input_in_errors,
+                                    validation_error_cause,
+                                ));
                             }
-                            validator
+                        }
+                        match validator {
+                            Some(validator) => validator
                                 .validate(py, next.borrow_input(), Some(index.into()))
-                                .map(Some)
+                                .map(Some),
+                            None => Ok(Some(next.into_pyobject(py)?.unbind())),
                         }
-                        None => Ok(Some(next.into_pyobject(py)?.unbind())),
-                    },
+                    }
                     None => {
                         if let Some(min_length) = min_length {
                             if $iter.index() < min_length {
-- 
2.43.0


From c38283b8d7d4b2210fe6e37ab24251fbda81d042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:27 +0000
Subject: [PATCH 15/72] fix: by_alias and by_name were ignored inside
 function-wrap validators and generators

---
 src/validators/generator.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/validators/generator.rs b/src/validators/generator.rs
index 89e75e0..adbf8fe 100644
--- a/src/validators/generator.rs
+++ b/src/validators/generator.rs
@@ -229,6 +229,8 @@ pub struct InternalValidator {
     hide_input_in_errors: bool,
     validation_error_cause: bool,
     cache_str: jiter::StringCacheMode,
+    by_alias: Option<bool>,
+    by_name: Option<bool>,
 }
 
 impl fmt::Debug for InternalValidator {
@@ -260,6 +262,8 @@ impl InternalValidator {
             hide_input_in_errors,
             validation_error_cause,
             cache_str: extra.cache_str,
+            by_alias: extra.by_alias,
+            by_name: extra.by_name,
         }
     }
 
@@ -280,8 +284,8 @@ impl InternalValidator {
             context: self.context.as_ref().map(|data| data.bind(py)),
             self_instance: self.self_instance.as_ref().map(|data| data.bind(py)),
             cache_str: self.cache_str,
-            by_alias: None,
-            by_name: None,
+            by_alias: self.by_alias,
+            by_name: self.by_name,
         };
         let mut state = ValidationState::new(extra, &mut self.recursion_guard, false.into());
         state.exactness = self.exactness;
@@ -318,8 +322,8 @@ impl InternalValidator {
             context: self.context.as_ref().map(|data| data.bind(py)),
             self_instance: self.self_instance.as_ref().map(|data| data.bind(py)),
             cache_str: self.cache_str,
-            by_alias: None,
-            by_name: None,
+            by_alias: self.by_alias,
+            by_name: self.by_name,
         };
         let mut state = ValidationState::new(extra, &mut self.recursion_guard, false.into());
         state.exactness = self.exactness;
-- 
2.43.0


From 61c718babb31c277487d1de901b59828e89a76ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:26 +0000
Subject: [PATCH 16/72] fix: fields set through a function-wrap validator were
 not counted in a smart union

---
 src/validators/function.rs  | 4 +++-
 src/validators/generator.rs | 6 ++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/validators/function.rs b/src/validators/function.rs
index e65ff79..ddb0960 100644
--- a/src/validators/function.rs
+++ b/src/validators/function.rs
@@ -380,7 +380,9 @@ impl Validator for FunctionWrapValidator {
         let handler = Bound::new(py, handler)?;
         #[allow(clippy::used_underscore_items)]
         let result = self._validate(handler.as_any(), py, input, state);
-        state.exactness = handler.borrow_mut().validator.exactness;
+        let handler = handler.borrow();
+        state.exactness = handler.validator.exactness;
+        state.fields_set_count = handler.validator.fields_set_count;
         result
     }
 
diff --git a/src/validators/generator.rs b/src/validators/generator.rs
index adbf8fe..f1f95ac 100644
--- a/src/validators/generator.rs
+++ b/src/validators/generator.rs
@@ -225,6 +225,7 @@ pub struct InternalValidator {
     self_instance: Option<PyObject>,
     recursion_guard: RecursionState,
     pub(crate) exactness: Option<Exactness>,
+    pub(crate) fields_set_count: Option<usize>,
     validation_mode: InputType,
     hide_input_in_errors: bool,
     validation_error_cause: bool,
@@ -258,6 +259,7 @@ impl InternalValidator {
             self_instance: extra.self_instance.map(|d| d.clone().unbind()),
             recursion_guard: state.recursion_guard.clone(),
             exactness: state.exactness,
+            fields_set_count: state.fields_set_count,
             validation_mode: extra.input_type,
             hide_input_in_errors,
             validation_error_cause,
@@ -289,6 +291,7 @@ impl InternalValidator {
         };
         let mut state = ValidationState::new(extra, &mut self.recursion_guard, false.into());
         state.exactness = self.exactness;
+        state.fields_set_count = self.fields_set_count;
         let result = self
             .validator
             .validate_assignment(py, model, field_name, field_value, &mut state)
@@ -304,6 +307,7 @@ impl InternalValidator {
                 )
             });
         self.exactness = state.exactness;
+        self.fields_set_count = state.fields_set_count;
         result
     }
 
@@ -327,6 +331,7 @@ impl InternalValidator {
         };
         let mut state = ValidationState::new(extra, &mut self.recursion_guard, false.into());
         state.exactness = self.exactness;
+        state.fields_set_count = self.fields_set_count;
         let result = self.validator.validate(py, input, &mut state).map_err(|e| {
             ValidationError::from_val_error(
                 py,
@@ -339,6 +344,7 @@ impl InternalValidator {
             )
         });
         self.exactness = state.exactness;
+        self.fields_set_count = state.fields_set_count;
         result
     }
 }
-- 
2.43.0


From 15b8ec0e639312311d356c747820a6537b5f2ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:19 +0000
Subject: [PATCH 17/72] fix: stack overflow when a default is itself invalid
 with on_error='default' and validate_default

---
 src/validators/with_default.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/validators/with_default.rs b/src/validators/with_default.rs
index 8100083..5ef40ed 100644
--- a/src/validators/with_default.rs
+++ b/src/validators/with_default.rs
@@ -189,8 +189,10 @@ impl Validator for WithDefaultValidator {
                     stored_dft
                 };
                 if self.validate_default {
-                    match self.validate(py, dft.bind(py), state) {
+                    // NB: not `self.validate`, a default must not be replaced by itself if it is invalid
+                    match self.validator.validate(py, dft.bind(py), state) {
                         Ok(v) => Ok(Some(v)),
+                        Err(_) if self.omit_on_error() => Err(ValError::Omit),
                         Err(e) => {
                             if let Some(outer_loc) = outer_loc {
                                 Err(e.with_outer_location(outer_loc))
-- 
2.43.0


From 4ee8d8df619bb3e0a89cd1624d72bab50ed7dbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:08 +0000
Subject: [PATCH 18/72] fix: locations of errors in the items after a variadic
 tuple item were off by one

---
 src/validators/tuple.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validators/tuple.rs b/src/validators/tuple.rs
index 1f0f614..8d3fbda 100644
--- a/src/validators/tuple.rs
+++ b/src/validators/tuple.rs
@@ -170,7 +170,7 @@ impl TupleValidator {
 
                 // Iterate over all remaining collection items, validating as items "leave" the buffer
                 for (buffer_item_index, input_item) in collection_iter {
-                    index = buffer_item_index;
+                    index = buffer_item_index + 1;
                     // This `unwrap` is safe because you can only get here
                     // if there were at least `n_tail_validators` (> 0) items in the iterator
                     let buffered_item = tail_buffer.pop_front().unwrap();
-- 
2.43.0


From d67819361e59fa13841fefb24a514942a3d55fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:24 +0000
Subject: [PATCH 19/72] fix: extras_schema was ignored when serializing extra
 items to JSON

---
 src/serializers/fields.rs | 39 +++++++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/src/serializers/fields.rs b/src/serializers/fields.rs
index b89468d..2ea723f 100644
--- a/src/serializers/fields.rs
+++ b/src/serializers/fields.rs
@@ -271,8 +271,14 @@ impl GeneralFieldsSerializer {
                     }
                 } else if self.mode == FieldsMode::TypedDictAllow {
                     let output_key = infer_json_key(&key, &field_extra).map_err(py_err_se_err)?;
-                    let s = SerializeInfer::new(&value, next_include.as_ref(), next_exclude.as_ref(), &field_extra);
-                    map.serialize_entry(&output_key, &s)?;
+                    self.serialize_extra_entry::<S>(
+                        &mut map,
+                        &output_key,
+                        &value,
+                        next_include.as_ref(),
+                        next_exclude.as_ref(),
+                        &field_extra,
+                    )?;
                 }
                 // no error case here since unions (which need the error case) use `to_python(..., mode='json')`
             }
@@ -280,6 +286,25 @@ impl GeneralFieldsSerializer {
         Ok(map)
     }
 
+    /// add an item which is not a field to `map`, using `extra_serializer` if there is one
+    fn serialize_extra_entry<S: serde::ser::Serializer>(
+        &self,
+        map: &mut S::SerializeMap,
+        output_key: &str,
+        value: &Bound<'_, PyAny>,
+        include: Option<&Bound<'_, PyAny>>,
+        exclude: Option<&Bound<'_, PyAny>>,
+        extra: &Extra,
+    ) -> Result<(), S::Error> {
+        match &self.extra_serializer {
+            Some(serializer) => map.serialize_entry(
+                output_key,
+                &PydanticSerializer::new(value, serializer, include, exclude, extra),
+            ),
+            None => map.serialize_entry(output_key, &SerializeInfer::new(value, include, exclude, extra)),
+        }
+    }
+
     pub(crate) fn add_computed_fields_python(
         &self,
         model: Option<&Bound<'_, PyAny>>,
@@ -444,8 +469,14 @@ impl TypeSerializer for GeneralFieldsSerializer {
                 let filter = self.filter.key_filter(&key, include, exclude).map_err(py_err_se_err)?;
                 if let Some((next_include, next_exclude)) = filter {
                     let output_key = infer_json_key(&key, extra).map_err(py_err_se_err)?;
-                    let s = SerializeInfer::new(&value, next_include.as_ref(), next_exclude.as_ref(), extra);
-                    map.serialize_entry(&output_key, &s)?;
+                    self.serialize_extra_entry::<S>(
+                        &mut map,
+                        &output_key,
+                        &value,
+                        next_include.as_ref(),
+                        next_exclude.as_ref(),
+                        extra,
+                    )?;
                 }
             }
         }
-- 
2.43.0


From 845914bf4914ae22a80be2c2ed7c4f14a7300280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:24 +0000
Subject: [PATCH 20/72] fix: exclude_none looked at the serialized value of
 computed fields, not at the value as in JSON

---
 src/serializers/computed_fields.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/serializers/computed_fields.rs b/src/serializers/computed_fields.rs
index 6e6786d..a783ba5 100644
--- a/src/serializers/computed_fields.rs
+++ b/src/serializers/computed_fields.rs
@@ -158,13 +158,14 @@ impl ComputedField {
 
         if let Some((next_include, next_exclude)) = filter.key_filter(property_name_py, include, exclude)? {
             let next_value = model.getattr(property_name_py)?;
+            // as for other fields and in JSON it's the value itself which counts, not what it's serialized to
+            if extra.exclude_none && next_value.is_none() {
+                return Ok(());
+            }
 
             let value = self
                 .serializer
                 .to_python(&next_value, next_include.as_ref(), next_exclude.as_ref(), extra)?;
-            if extra.exclude_none && value.is_none(py) {
-                return Ok(());
-            }
             let key = match extra.serialize_by_alias_or(self.serialize_by_alias) {
                 true => self.alias_py.bind(py),
                 false => property_name_py,
-- 
2.43.0


From 299989163b60cb6fce46be4adc253dddf04d8d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:48 +0000
Subject: [PATCH 21/72] fix: the property of a computed field was evaluated
 twice when serializing to JSON

---
 src/serializers/computed_fields.rs | 43 ++++++------------------------
 1 file changed, 8 insertions(+), 35 deletions(-)

diff --git a/src/serializers/computed_fields.rs b/src/serializers/computed_fields.rs
index a783ba5..5dbe242 100644
--- a/src/serializers/computed_fields.rs
+++ b/src/serializers/computed_fields.rs
@@ -2,7 +2,6 @@ use pyo3::prelude::*;
 use pyo3::types::{PyDict, PyList, PyString};
 use pyo3::{intern, PyTraverseError, PyVisit};
 use serde::ser::SerializeMap;
-use serde::Serialize;
 
 use crate::build_tools::py_schema_error_type;
 use crate::definitions::DefinitionsBuilder;
@@ -91,18 +90,18 @@ impl ComputedFields {
                     field_name: Some(computed_field.property_name.as_str()),
                     ..*extra
                 };
-                let cfs = ComputedFieldSerializer {
-                    model,
-                    computed_field,
-                    include: next_include.as_ref(),
-                    exclude: next_exclude.as_ref(),
-                    extra: &field_extra,
-                };
+                let s = PydanticSerializer::new(
+                    &value,
+                    &computed_field.serializer,
+                    next_include.as_ref(),
+                    next_exclude.as_ref(),
+                    &field_extra,
+                );
                 let key = match extra.serialize_by_alias_or(computed_field.serialize_by_alias) {
                     true => computed_field.alias.as_str(),
                     false => computed_field.property_name.as_str(),
                 };
-                map.serialize_entry(key, &cfs)?;
+                map.serialize_entry(key, &s)?;
             }
         }
         Ok(())
@@ -176,14 +175,6 @@ impl ComputedField {
     }
 }
 
-pub(crate) struct ComputedFieldSerializer<'py> {
-    model: &'py Bound<'py, PyAny>,
-    computed_field: &'py ComputedField,
-    include: Option<&'py Bound<'py, PyAny>>,
-    exclude: Option<&'py Bound<'py, PyAny>>,
-    extra: &'py Extra<'py>,
-}
-
 impl_py_gc_traverse!(ComputedField { serializer });
 
 impl PyGcTraverse for ComputedFields {
@@ -191,21 +182,3 @@ impl PyGcTraverse for ComputedFields {
         self.0.py_gc_traverse(visit)
     }
 }
-
-impl_py_gc_traverse!(ComputedFieldSerializer<'_> { computed_field });
-
-impl Serialize for ComputedFieldSerializer<'_> {
-    fn serialize<S: serde::ser::Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-        let py = self.model.py();
-        let property_name_py = self.computed_field.property_name_py.bind(py);
-        let next_value = self.model.getattr(property_name_py).map_err(py_err_se_err)?;
-        let s = PydanticSerializer::new(
-            &next_value,
-            &self.computed_field.serializer,
-            self.include,
-            self.exclude,
-            self.extra,
-        );
-        s.serialize(serializer)
-    }
-}
-- 
2.43.0


From ddfe9b120db226c4791dbdef5fcd8d87a7498dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:09 +0000
Subject: [PATCH 22/72] fix: computed fields of a dataclass were not passed the
 dataclass as model when serializing to JSON

---
 src/serializers/type_serializers/dataclass.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/serializers/type_serializers/dataclass.rs b/src/serializers/type_serializers/dataclass.rs
index a080a9b..06d465f 100644
--- a/src/serializers/type_serializers/dataclass.rs
+++ b/src/serializers/type_serializers/dataclass.rs
@@ -158,10 +158,10 @@ impl TypeSerializer for DataclassSerializer {
                     known_dataclass_iter(&self.fields, value),
                     include,
                     exclude,
-                    dc_extra,
+                    dc_extra.clone(),
                 )?;
 
-                fields_serializer.add_computed_fields_python(model, &output_dict, include, exclude, extra)?;
+                fields_serializer.add_computed_fields_python(model, &output_dict, include, exclude, &dc_extra)?;
                 Ok(output_dict.into())
             } else {
                 let inner_value = self.get_inner_value(value)?;
@@ -209,9 +209,9 @@ impl TypeSerializer for DataclassSerializer {
                     serializer,
                     include,
                     exclude,
-                    dc_extra,
+                    dc_extra.clone(),
                 )?;
-                fields_serializer.add_computed_fields_json::<S>(model, &mut map, include, exclude, extra)?;
+                fields_serializer.add_computed_fields_json::<S>(model, &mut map, include, exclude, &dc_extra)?;
                 map.end()
             } else {
                 let inner_value = self.get_inner_value(value).map_err(py_err_se_err)?;
-- 
2.43.0


From 48cb8d33352355c5d26988cde88e66d1f8acbbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:10 +0000
Subject: [PATCH 23/72] fix: the include and exclude of a set were applied to
 its items when inferring JSON

---
 src/serializers/infer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serializers/infer.rs b/src/serializers/infer.rs
index 33f53b2..96e5e15 100644
--- a/src/serializers/infer.rs
+++ b/src/serializers/infer.rs
@@ -380,7 +380,7 @@ pub(crate) fn infer_serialize_known<S: Serializer>(
             let py_seq = value.downcast::<$t>().map_err(py_err_se_err)?;
             let mut seq = serializer.serialize_seq(Some(py_seq.len()))?;
             for element in py_seq.iter() {
-                let item_serializer = SerializeInfer::new(&element, include, exclude, extra);
+                let item_serializer = SerializeInfer::new(&element, None, None, extra);
                 seq.serialize_element(&item_serializer)?
             }
             seq.end()
-- 
2.43.0


From dd4c5e36cfe47bfb1fc8a99b93ed71d059c9187d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:10 +0000
Subject: [PATCH 24/72] fix: an index in include or exclude which is out of
 range wrapped around to another item

---
 src/serializers/filter.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/serializers/filter.rs b/src/serializers/filter.rs
index 65ec406..de23bd8 100644
--- a/src/serializers/filter.rs
+++ b/src/serializers/filter.rs
@@ -16,11 +16,12 @@ pub(crate) struct SchemaFilter<T> {
 }
 
 fn map_negative_index<'py>(value: &Bound<'py, PyAny>, len: Option<usize>) -> PyResult<Bound<'py, PyAny>> {
-    let py = value.py();
     match len {
-        Some(len) => Ok(value
-            .call_method1(intern!(py, "__mod__"), (len,))
-            .unwrap_or_else(|_| value.clone())),
+        // only negative indices count from the end, an index which is out of range must not wrap around
+        Some(len) => match value.lt(0) {
+            Ok(true) => value.add(len),
+            _ => Ok(value.clone()),
+        },
         None => {
             // check that it's not negative
             if value.lt(0).unwrap_or(false) {
-- 
2.43.0


From 0cf5f68a215db0589d2e9b09c9b8e1cabc4afb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:10 +0000
Subject: [PATCH 25/72] fix: excluding a part of an item brought back an item
 which the schema excludes

---
 src/serializers/filter.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/serializers/filter.rs b/src/serializers/filter.rs
index de23bd8..1a94e2c 100644
--- a/src/serializers/filter.rs
+++ b/src/serializers/filter.rs
@@ -226,10 +226,8 @@ trait FilterLogic<T: Eq + Copy> {
             }
         }
 
-        if next_exclude.is_some() {
+        if self.default_filter(int_key) {
             Ok(Some((None, next_exclude)))
-        } else if self.default_filter(int_key) {
-            Ok(Some((None, None)))
         } else {
             Ok(None)
         }
-- 
2.43.0


From 4f9d1e299221fe2bf499293b9145f70fb5b671c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:25 +0000
Subject: [PATCH 26/72] fix: include and exclude were ignored where when_used
 keeps a function serializer from being used

---
 src/serializers/type_serializers/function.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/serializers/type_serializers/function.rs b/src/serializers/type_serializers/function.rs
index 3c66583..3735c2e 100644
--- a/src/serializers/type_serializers/function.rs
+++ b/src/serializers/type_serializers/function.rs
@@ -222,9 +222,10 @@ macro_rules! function_type_serializer {
                 match self.call(value, include, exclude, extra) {
                     // None for include/exclude here, as filtering should be done
                     Ok((true, v)) => self.return_serializer.to_python(v.bind(py), None, None, extra),
+                    // the function was not used, so nothing has been filtered yet
                     Ok((false, v)) => self
                         .get_fallback_serializer()
-                        .to_python(v.bind(py), None, None, extra),
+                        .to_python(v.bind(py), include, exclude, extra),
                     Err(err) => {
                         on_error(py, err, &self.function_name, extra)?;
                         infer_to_python(value, include, exclude, extra)
@@ -264,9 +265,10 @@ macro_rules! function_type_serializer {
                     Ok((true, v)) => self
                         .return_serializer
                         .serde_serialize(v.bind(py), serializer, None, None, extra),
+                    // the function was not used, so nothing has been filtered yet
                     Ok((false, v)) => {
                         self.get_fallback_serializer()
-                            .serde_serialize(v.bind(py), serializer, None, None, extra)
+                            .serde_serialize(v.bind(py), serializer, include, exclude, extra)
                     }
                     Err(err) => {
                         on_error(py, err, &self.function_name, extra).map_err(py_err_se_err)?;
-- 
2.43.0


From 80c003586a7e2307db1f0f64769d5ec6121db8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:30 +0000
Subject: [PATCH 27/72] fix: include made all members of a union be rejected
 when serializing (missing fields were counted as such)

---
 src/serializers/fields.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/serializers/fields.rs b/src/serializers/fields.rs
index 2ea723f..95de90f 100644
--- a/src/serializers/fields.rs
+++ b/src/serializers/fields.rs
@@ -212,7 +212,11 @@ impl GeneralFieldsSerializer {
 
         if extra.check.enabled()
             // If any of these are true we can't count fields
-            && !(extra.exclude_defaults || extra.exclude_unset || extra.exclude_none || exclude.is_some())
+            && !(extra.exclude_defaults
+                || extra.exclude_unset
+                || extra.exclude_none
+                || include.is_some()
+                || exclude.is_some())
             // Check for missing fields, we can't have extra fields here
             && self.required_fields > used_req_fields
         {
-- 
2.43.0


From 3bd1bee3b62ef0009b008bf10d603c0a19f20f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:15 +0000
Subject: [PATCH 28/72] fix: timedelta serializer took any value as its own in
 python mode

---
 src/serializers/type_serializers/timedelta.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/serializers/type_serializers/timedelta.rs b/src/serializers/type_serializers/timedelta.rs
index f1fb99d..b08462d 100644
--- a/src/serializers/type_serializers/timedelta.rs
+++ b/src/serializers/type_serializers/timedelta.rs
@@ -40,15 +40,15 @@ impl TypeSerializer for TimeDeltaSerializer {
         exclude: Option<&Bound<'_, PyAny>>,
         extra: &Extra,
     ) -> PyResult<PyObject> {
-        match extra.mode {
-            SerMode::Json => match EitherTimedelta::try_from(value) {
-                Ok(either_timedelta) => self.timedelta_mode.either_delta_to_json(value.py(), either_timedelta),
-                Err(_) => {
-                    extra.warnings.on_fallback_py(self.get_name(), value, extra)?;
-                    infer_to_python(value, include, exclude, extra)
-                }
+        match EitherTimedelta::try_from(value) {
+            Ok(either_timedelta) => match extra.mode {
+                SerMode::Json => self.timedelta_mode.either_delta_to_json(value.py(), either_timedelta),
+                _ => Ok(value.clone().unbind()),
             },
-            _ => infer_to_python(value, include, exclude, extra),
+            Err(_) => {
+                extra.warnings.on_fallback_py(self.get_name(), value, extra)?;
+                infer_to_python(value, include, exclude, extra)
+            }
         }
     }
 
-- 
2.43.0


From a605209712ae81a373c44c621fb2d877deb677fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:15 +0000
Subject: [PATCH 29/72] fix: complex numbers with a negative-zero or NaN
 imaginary part serialized to unparsable text

---
 src/serializers/type_serializers/complex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serializers/type_serializers/complex.rs b/src/serializers/type_serializers/complex.rs
index d55c4b2..7296808 100644
--- a/src/serializers/type_serializers/complex.rs
+++ b/src/serializers/type_serializers/complex.rs
@@ -79,7 +79,7 @@ pub fn complex_to_str(py_complex: &Bound<'_, PyComplex>) -> String {
     let mut s = format!("{im}j");
     if re != 0.0 {
         let mut sign = "";
-        if im >= 0.0 {
+        if im.is_nan() || im.is_sign_positive() {
             sign = "+";
         }
         s = format!("{re}{sign}{s}");
-- 
2.43.0


From 9a3125af2f31326f540b8e704805664c87fa29f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:35 +0000
Subject: [PATCH 30/72] fix: literals and enums did not find integers beyond 64
 bits and reported them as int_parsing_size

---
 src/validators/literal.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/validators/literal.rs b/src/validators/literal.rs
index 3da5e9d..3c990fd 100644
--- a/src/validators/literal.rs
+++ b/src/validators/literal.rs
@@ -11,7 +11,7 @@ use ahash::AHashMap;
 
 use crate::build_tools::{py_schema_err, py_schema_error_type};
 use crate::errors::{ErrorType, ValError, ValResult};
-use crate::input::{Input, ValidationMatch};
+use crate::input::{Input, Int, ValidationMatch};
 use crate::py_gc::PyGcTraverse;
 use crate::tools::SchemaDict;
 
@@ -113,8 +113,8 @@ impl<T: Debug> LiteralLookup<T> {
             }
         }
         if let Some(expected_ints) = &self.expected_int {
-            if let Ok(either_int) = input.exact_int() {
-                let int = either_int.into_i64(py)?;
+            // an int that does not fit into an i64 can only be one of `expected_py_dict`
+            if let Ok(int) = input.exact_int().and_then(|either_int| either_int.into_i64(py)) {
                 if let Some(id) = expected_ints.get(&int) {
                     return Ok(Some((input, &self.values[*id])));
                 }
@@ -190,11 +190,23 @@ impl<T: Debug> LiteralLookup<T> {
         input: &'a I,
         strict: bool,
     ) -> ValResult<Option<&T>> {
-        if let Some(expected_ints) = &self.expected_int {
-            if let Ok(either_int) = input.validate_int(strict) {
-                let int = either_int.into_inner().into_i64(py)?;
-                if let Some(id) = expected_ints.get(&int) {
-                    return Ok(Some(&self.values[*id]));
+        if self.expected_int.is_none() && self.expected_py_dict.is_none() {
+            return Ok(None);
+        }
+        if let Ok(either_int) = input.validate_int(strict) {
+            match either_int.into_inner().as_int()? {
+                Int::I64(int) => {
+                    if let Some(id) = self.expected_int.as_ref().and_then(|expected| expected.get(&int)) {
+                        return Ok(Some(&self.values[*id]));
+                    }
+                }
+                int @ Int::Big(_) => {
+                    if let Some(expected_py) = &self.expected_py_dict {
+                        if let Ok(Some(v)) = expected_py.bind(py).get_item(int) {
+                            let id: usize = v.extract().unwrap();
+                            return Ok(Some(&self.values[id]));
+                        }
+                    }
                 }
             }
         }
-- 
2.43.0


From 2dac4acd4433390718b29c55112ddc880ac31ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:11 +0000
Subject: [PATCH 31/72] fix: fields with init=False or kw_only took up a
 positional argument of a dataclass, which was lost

---
 src/validators/dataclass.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/validators/dataclass.rs b/src/validators/dataclass.rs
index c74d789..14bca36 100644
--- a/src/validators/dataclass.rs
+++ b/src/validators/dataclass.rs
@@ -89,7 +89,8 @@ impl BuildValidator for DataclassArgsValidator {
             }
 
             let kw_only = field.get_as(intern!(py, "kw_only"))?.unwrap_or(true);
-            if !kw_only {
+            let init = field.get_as(intern!(py, "init"))?.unwrap_or(true);
+            if init && !kw_only {
                 positional_count += 1;
             }
 
@@ -102,7 +103,7 @@ impl BuildValidator for DataclassArgsValidator {
                 name_py: name_py.into(),
                 lookup_key_collection,
                 validator,
-                init: field.get_as(intern!(py, "init"))?.unwrap_or(true),
+                init,
                 init_only: field.get_as(intern!(py, "init_only"))?.unwrap_or(false),
                 frozen: field.get_as::<bool>(intern!(py, "frozen"))?.unwrap_or(false),
             });
@@ -161,6 +162,9 @@ impl Validator for DataclassArgsValidator {
 
         let mut fields_set_count: usize = 0;
 
+        // index of the next positional argument, fields which can't be set by position don't take one up
+        let mut index: usize = 0;
+
         macro_rules! set_item {
             ($field:ident, $value:expr) => {{
                 let name_py = $field.name_py.bind(py);
@@ -175,7 +179,7 @@ impl Validator for DataclassArgsValidator {
         }
 
         // go through fields getting the value from args or kwargs and validating it
-        for (index, field) in self.fields.iter().enumerate() {
+        for field in &self.fields {
             if !field.init {
                 match field.validator.default_value(py, Some(field.name.as_str()), state) {
                     Ok(Some(value)) => {
@@ -198,6 +202,7 @@ impl Validator for DataclassArgsValidator {
             if let Some(args) = args.args() {
                 if !field.kw_only {
                     pos_value = args.get_item(index);
+                    index += 1;
                 }
             }
 
@@ -232,7 +237,7 @@ impl Validator for DataclassArgsValidator {
                         fields_set_count += 1;
                     }
                     Err(ValError::LineErrors(line_errors)) => {
-                        errors.extend(line_errors.into_iter().map(|err| err.with_outer_location(index)));
+                        errors.extend(line_errors.into_iter().map(|err| err.with_outer_location(index - 1)));
                     }
                     Err(err) => return Err(err),
                 },
-- 
2.43.0


From f3e70d8bd052a7dd3cec8a4a233643e0737388c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:27 +0000
Subject: [PATCH 32/72] fix: values which can't be looked up were ignored when
 validating strings as a TypedDict, even for required fields

---
 src/validators/typed_dict.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validators/typed_dict.rs b/src/validators/typed_dict.rs
index eb4394e..58f71e6 100644
--- a/src/validators/typed_dict.rs
+++ b/src/validators/typed_dict.rs
@@ -193,7 +193,7 @@ impl Validator for TypedDictValidator {
                     Ok(v) => v,
                     Err(ValError::LineErrors(line_errors)) => {
                         let field_loc: LocItem = field.name.clone().into();
-                        if partial_last_key.as_ref() == Some(&field_loc) {
+                        if partial_last_key.as_ref() != Some(&field_loc) || field.required {
                             for err in line_errors {
                                 errors.push(err.with_outer_location(field_loc.clone()));
                             }
-- 
2.43.0


From 66916db057b644f99988af1cdb6ab56a5279456e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:27 +0000
Subject: [PATCH 33/72] fix: revalidating a model instance shared its
 fields_set with the new instance

---
 src/validators/model.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/validators/model.rs b/src/validators/model.rs
index f2c3658..7fbe3b3 100644
--- a/src/validators/model.rs
+++ b/src/validators/model.rs
@@ -153,7 +153,11 @@ impl Validator for ModelValidator {
 
         if let Some(py_input) = py_instance_input {
             if self.revalidate.should_revalidate(py_input, class) || force_revalidate {
-                let fields_set = py_input.getattr(intern!(py, DUNDER_FIELDS_SET_KEY))?;
+                // the new instance needs a set of its own, otherwise setting a field of one would change both
+                let fields_set = match py_input.getattr(intern!(py, DUNDER_FIELDS_SET_KEY))? {
+                    fields_set if fields_set.is_instance_of::<PySet>() => fields_set.call_method0(intern!(py, "copy"))?,
+                    fields_set => fields_set,
+                };
                 if self.root_model {
                     let inner_input = py_input.getattr(intern!(py, ROOT_FIELD))?;
                     self.validate_construct(py, &inner_input, Some(&fields_set), state)
-- 
2.43.0


From 615ac48c548df63a3b373892d317852c10b56289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:37 +0000
Subject: [PATCH 34/72] fix: the info passed to validators of defaults did not
 have the field_name

---
 src/validators/dataclass.rs    | 2 ++
 src/validators/model_fields.rs | 2 ++
 src/validators/typed_dict.rs   | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/validators/dataclass.rs b/src/validators/dataclass.rs
index 14bca36..ee470b3 100644
--- a/src/validators/dataclass.rs
+++ b/src/validators/dataclass.rs
@@ -181,6 +181,8 @@ impl Validator for DataclassArgsValidator {
         // go through fields getting the value from args or kwargs and validating it
         for field in &self.fields {
             if !field.init {
+                let state = &mut state.rebind_extra(|extra| extra.field_name = Some(field.name_py.bind(py).clone()));
+
                 match field.validator.default_value(py, Some(field.name.as_str()), state) {
                     Ok(Some(value)) => {
                         // Default value exists, and passed validation if required
diff --git a/src/validators/model_fields.rs b/src/validators/model_fields.rs
index 10d13d7..f4ba27c 100644
--- a/src/validators/model_fields.rs
+++ b/src/validators/model_fields.rs
@@ -218,6 +218,8 @@ impl Validator for ModelFieldsValidator {
                     continue;
                 }
 
+                let state = &mut state.rebind_extra(|extra| extra.field_name = Some(field.name_py.bind(py).clone()));
+
                 match field.validator.default_value(py, Some(field.name.as_str()), state) {
                     Ok(Some(value)) => {
                         // Default value exists, and passed validation if required
diff --git a/src/validators/typed_dict.rs b/src/validators/typed_dict.rs
index 58f71e6..d9dcebc 100644
--- a/src/validators/typed_dict.rs
+++ b/src/validators/typed_dict.rs
@@ -239,6 +239,8 @@ impl Validator for TypedDictValidator {
                     continue;
                 }
 
+                let state = &mut state.rebind_extra(|extra| extra.field_name = Some(field.name_py.bind(py).clone()));
+
                 match field.validator.default_value(py, Some(field.name.as_str()), state) {
                     Ok(Some(value)) => {
                         // Default value exists, and passed validation if required
-- 
2.43.0


From 3dbb7cb96fe8b096488a253e57b1a70a4282963d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:59 +0000
Subject: [PATCH 35/72] fix: assigning to a field of a dataclass dropped all
 attributes which aren't fields

---
 src/validators/dataclass.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/validators/dataclass.rs b/src/validators/dataclass.rs
index ee470b3..b7ac031 100644
--- a/src/validators/dataclass.rs
+++ b/src/validators/dataclass.rs
@@ -615,7 +615,10 @@ impl Validator for DataclassValidator {
                 .ok_or_else(|| PyKeyError::new_err(field_name.to_string()))?;
             force_setattr(py, obj, field_name, value)?;
         } else {
-            force_setattr(py, obj, intern!(py, "__dict__"), dc_dict)?;
+            // attributes which aren't fields (extra attributes, what `__post_init__` has set) have to be kept
+            let new_dict = obj.getattr(intern!(py, "__dict__"))?.downcast::<PyDict>()?.copy()?;
+            new_dict.update(dc_dict.as_mapping())?;
+            force_setattr(py, obj, intern!(py, "__dict__"), new_dict)?;
         }
 
         Ok(obj.clone().unbind())
-- 
2.43.0


From 51a28460f0e918354cc066d387611e8461d6c2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:55 +0000
Subject: [PATCH 36/72] fix: an extra attribute with the name of an aliased
 field replaced the value of the field on assignment

---
 src/validators/model.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/validators/model.rs b/src/validators/model.rs
index 7fbe3b3..112dc01 100644
--- a/src/validators/model.rs
+++ b/src/validators/model.rs
@@ -216,8 +216,16 @@ impl Validator for ModelValidator {
         let old_dict = model.getattr(intern!(py, DUNDER_DICT))?.downcast_into::<PyDict>()?;
 
         let input_dict = old_dict.copy()?;
+        // extra attributes with the name of a field (which has an alias), they must not replace the value of the field
+        let shadowed_extra = PyDict::new(py);
         if let Ok(old_extra) = model.getattr(intern!(py, DUNDER_MODEL_EXTRA_KEY))?.downcast::<PyDict>() {
-            input_dict.update(old_extra.as_mapping())?;
+            for (key, value) in old_extra {
+                if old_dict.contains(&key)? {
+                    shadowed_extra.set_item(key, value)?;
+                } else {
+                    input_dict.set_item(key, value)?;
+                }
+            }
         }
         input_dict.set_item(field_name, field_value)?;
 
@@ -230,6 +238,9 @@ impl Validator for ModelValidator {
             Bound<'_, PyAny>,
             Bound<'_, PySet>,
         ) = output.extract(py)?;
+        if let Ok(extra) = validated_extra.downcast::<PyDict>() {
+            extra.update(shadowed_extra.as_mapping())?;
+        }
 
         if let Ok(fields_set) = model.getattr(intern!(py, DUNDER_FIELDS_SET_KEY)) {
             let fields_set = fields_set.downcast::<PySet>()?;
-- 
2.43.0


From 5d700dd68fee363b6115c827d3ce744e9ceb0bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:07 +0000
Subject: [PATCH 37/72] fix: pass an empty dict, not a tuple, to default
 factories that take data when there is none

---
 src/validators/with_default.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validators/with_default.rs b/src/validators/with_default.rs
index 5ef40ed..b6c7f2f 100644
--- a/src/validators/with_default.rs
+++ b/src/validators/with_default.rs
@@ -55,7 +55,7 @@ impl DefaultType {
                     if let Some(data) = validated_data {
                         default_factory.call1(py, (data,))
                     } else {
-                        default_factory.call1(py, ({},))
+                        default_factory.call1(py, (PyDict::new(py),))
                     }
                 } else {
                     default_factory.call0(py)
-- 
2.43.0


From 8b8a1d18109513956ec5725beb4b7c019beba5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:31 +0000
Subject: [PATCH 38/72] fix: a choice of a smart union that omits its value
 left the state of the union behind

---
 src/validators/union.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/validators/union.rs b/src/validators/union.rs
index f293a99..1fef722 100644
--- a/src/validators/union.rs
+++ b/src/validators/union.rs
@@ -161,7 +161,12 @@ impl UnionValidator {
                         errors.push(choice, label.as_deref(), lines);
                     }
                 }
-                otherwise => return otherwise,
+                otherwise => {
+                    // omitted, or an error of a function: what comes next is not inside of this union
+                    state.exactness = old_exactness;
+                    state.fields_set_count = old_fields_set_count;
+                    return otherwise;
+                }
             }
         }
 
-- 
2.43.0


From ea03e38bfdfd8827ee01795357bdb4dbfaa80033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:03 +0000
Subject: [PATCH 39/72] fix: a value of JSON that is no member of an enum was
 looked up as None

---
 src/validators/enum_.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/validators/enum_.rs b/src/validators/enum_.rs
index 0e34cb1..add0763 100644
--- a/src/validators/enum_.rs
+++ b/src/validators/enum_.rs
@@ -122,8 +122,10 @@ impl<T: EnumValidateValue> Validator for EnumValidator<T> {
 
         if let Some(v) = T::validate_value(py, input, &self.lookup, strict)? {
             return Ok(v);
-        } else if let Ok(res) = class.as_unbound().call1(py, (input.as_python(),)) {
-            return Ok(res);
+        }
+        // there is no python object to look a member up by in JSON, `class(None)` could find an unrelated one
+        if let Some(Ok(res)) = input.as_python().map(|py_input| class.call1((py_input,))) {
+            return Ok(res.unbind());
         } else if let Some(ref missing) = self.missing {
             let enum_value = missing.bind(py).call1((input.to_object(py)?,)).map_err(|_| {
                 ValError::new(
-- 
2.43.0


From 9de607f89d8c30336ce1a964f374e7121a007bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:18 +0000
Subject: [PATCH 40/72] fix: an invalid default of an argument hid the errors
 of all other arguments

---
 src/validators/arguments.rs    | 12 ++++++++++--
 src/validators/arguments_v3.rs | 27 +++++++++++++++++++++------
 2 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/validators/arguments.rs b/src/validators/arguments.rs
index 2ca3ba5..e62684a 100644
--- a/src/validators/arguments.rs
+++ b/src/validators/arguments.rs
@@ -261,10 +261,18 @@ impl Validator for ArgumentsValidator {
                     }
                 }
                 (None, None) => {
-                    if let Some(value) = parameter
+                    let default = match parameter
                         .validator
-                        .default_value(py, Some(parameter.name.as_str()), state)?
+                        .default_value(py, Some(parameter.name.as_str()), state)
                     {
+                        Ok(default) => default,
+                        Err(ValError::LineErrors(line_errors)) => {
+                            errors.extend(line_errors);
+                            continue;
+                        }
+                        Err(err) => return Err(err),
+                    };
+                    if let Some(value) = default {
                         if let Some(ref kwarg_key) = parameter.kwarg_key {
                             output_kwargs.set_item(kwarg_key, value)?;
                         } else {
diff --git a/src/validators/arguments_v3.rs b/src/validators/arguments_v3.rs
index 22c9c6d..d1e580f 100644
--- a/src/validators/arguments_v3.rs
+++ b/src/validators/arguments_v3.rs
@@ -385,11 +385,18 @@ impl ArgumentsV3Validator {
                 match parameter.mode {
                     // ... fallback to the default value (and error if no default):
                     ParameterMode::PositionalOnly | ParameterMode::PositionalOrKeyword | ParameterMode::KeywordOnly => {
-                        if let Some(value) =
-                            parameter
-                                .validator
-                                .default_value(py, Some(parameter.name.as_str()), state)?
+                        let default = match parameter
+                            .validator
+                            .default_value(py, Some(parameter.name.as_str()), state)
                         {
+                            Ok(default) => default,
+                            Err(ValError::LineErrors(line_errors)) => {
+                                errors.extend(line_errors);
+                                continue;
+                            }
+                            Err(err) => return Err(err),
+                        };
+                        if let Some(value) = default {
                             if matches!(
                                 parameter.mode,
                                 ParameterMode::PositionalOnly | ParameterMode::PositionalOrKeyword
@@ -585,10 +592,18 @@ impl ArgumentsV3Validator {
                     }
                 }
                 (None, None) => {
-                    if let Some(value) = parameter
+                    let default = match parameter
                         .validator
-                        .default_value(py, Some(parameter.name.as_str()), state)?
+                        .default_value(py, Some(parameter.name.as_str()), state)
                     {
+                        Ok(default) => default,
+                        Err(ValError::LineErrors(line_errors)) => {
+                            errors.extend(line_errors);
+                            continue;
+                        }
+                        Err(err) => return Err(err),
+                    };
+                    if let Some(value) = default {
                         if parameter.mode == ParameterMode::PositionalOnly {
                             output_args.push(value);
                         } else {
-- 
2.43.0


From 8997fa37417c8654abb93185812b9ed37c1a60b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:18 +0000
Subject: [PATCH 41/72] fix: variadic parameters of arguments-v3 could not
 follow a parameter with a default

---
 src/validators/arguments_v3.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/validators/arguments_v3.rs b/src/validators/arguments_v3.rs
index d1e580f..31263cb 100644
--- a/src/validators/arguments_v3.rs
+++ b/src/validators/arguments_v3.rs
@@ -177,7 +177,11 @@ impl BuildValidator for ArgumentsV3Validator {
                 _ => false,
             };
 
-            if had_default_arg && !has_default && !had_keyword_only {
+            let variadic = matches!(
+                mode,
+                ParameterMode::VarArgs | ParameterMode::VarKwargsUniform | ParameterMode::VarKwargsUnpackedTypedDict
+            );
+            if had_default_arg && !has_default && !had_keyword_only && !variadic {
                 return py_schema_err!("Required parameter '{}' follows parameter with default", name);
             } else if has_default {
                 had_default_arg = true;
-- 
2.43.0


From 4c779e1c82eed64888f4f05b64766de278a3cb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:57 +0000
Subject: [PATCH 42/72] fix: the unicode form of a URL with credentials and a
 punycode host was garbled

---
 src/url.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/url.rs b/src/url.rs
index da63be5..d2d0023 100644
--- a/src/url.rs
+++ b/src/url.rs
@@ -9,7 +9,7 @@ use pyo3::pyclass::CompareOp;
 use pyo3::sync::GILOnceCell;
 use pyo3::types::{PyDict, PyType};
 use pyo3::{intern, prelude::*, IntoPyObjectExt};
-use url::Url;
+use url::{Position, Url};
 
 use crate::tools::SchemaDict;
 use crate::SchemaValidator;
@@ -484,7 +484,7 @@ fn unicode_url(lib_url: &Url) -> String {
         Some(url::Host::Domain(domain)) if is_punnycode_domain(lib_url, domain) => {
             if let Some(decoded) = decode_punycode(domain) {
                 // replace the range containing the punycode domain with the decoded domain
-                let start = lib_url.scheme().len() + 3;
+                let start = lib_url[..Position::BeforeHost].len();
                 s.replace_range(start..start + domain.len(), &decoded);
             }
             s
-- 
2.43.0


From 02db4da96f2268bbe4eac992043da253f4031f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:57 +0000
Subject: [PATCH 43/72] fix: equal MultiHostUrls could have different hashes

---
 src/url.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/url.rs b/src/url.rs
index d2d0023..c073217 100644
--- a/src/url.rs
+++ b/src/url.rs
@@ -342,7 +342,8 @@ impl PyMultiHostUrl {
 
     fn __hash__(&self) -> u64 {
         let mut s = DefaultHasher::new();
-        self.hash(&mut s);
+        // consistent with `__richcmp__`
+        self.unicode_string().hash(&mut s);
         s.finish()
     }
 
-- 
2.43.0


From 80307aca97d7ab381bcad77ca7f1f0e23318761d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:57 +0000
Subject: [PATCH 44/72] fix: the path of a multi-host URL with an empty last
 host was taken for a host

---
 src/validators/url.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/validators/url.rs b/src/validators/url.rs
index d220d60..88e4970 100644
--- a/src/validators/url.rs
+++ b/src/validators/url.rs
@@ -451,6 +451,15 @@ fn parse_multihost_url<'py>(
             _ => (),
         }
     }
+    // with more than one host, none of them can be empty, including the last
+    let last_host_empty = match url_str[start..].chars().next() {
+        Some('\\') => schema_is_special(&schema),
+        Some('/' | '?' | '#') | None => true,
+        _ => false,
+    };
+    if !hosts.is_empty() && last_host_empty {
+        return parsing_err!(ParseError::EmptyHost);
+    }
     // with just one host, for consistent behaviour, we parse the URL the same as with multiple hosts
 
     let reconstructed_url = format!("{prefix}{}", &url_str[start..]);
-- 
2.43.0


From 3fc95cb2e043a8c86f7865211334a46b4b83958a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:47 +0000
Subject: [PATCH 45/72] fix: MultiHostUrl.build refused the None values which
 hosts() gives

---
 src/url.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/url.rs b/src/url.rs
index c073217..258aef8 100644
--- a/src/url.rs
+++ b/src/url.rs
@@ -442,10 +442,10 @@ impl FromPyObject<'_> for UrlHostParts {
         let py = ob.py();
         let dict = ob.downcast::<PyDict>()?;
         Ok(UrlHostParts {
-            username: dict.get_as(intern!(py, "username"))?,
-            password: dict.get_as(intern!(py, "password"))?,
-            host: dict.get_as(intern!(py, "host"))?,
-            port: dict.get_as(intern!(py, "port"))?,
+            username: dict.get_as::<Option<_>>(intern!(py, "username"))?.flatten(),
+            password: dict.get_as::<Option<_>>(intern!(py, "password"))?.flatten(),
+            host: dict.get_as::<Option<_>>(intern!(py, "host"))?.flatten(),
+            port: dict.get_as::<Option<_>>(intern!(py, "port"))?.flatten(),
         })
     }
 }
-- 
2.43.0


From c925d8bc71b89fd0b01a56a8525f0fca2254734e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:47 +0000
Subject: [PATCH 46/72] fix: MultiHostUrl.build called a host with just a
 username unset

---
 src/url.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/url.rs b/src/url.rs
index 258aef8..a78c648 100644
--- a/src/url.rs
+++ b/src/url.rs
@@ -433,7 +433,7 @@ pub struct UrlHostParts {
 
 impl UrlHostParts {
     fn is_empty(&self) -> bool {
-        self.host.is_none() && self.password.is_none() && self.host.is_none() && self.port.is_none()
+        self.username.is_none() && self.password.is_none() && self.host.is_none() && self.port.is_none()
     }
 }
 
-- 
2.43.0


From ecc93a957fc4de43d8d408aabf6c7d944ff97603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:33 +0000
Subject: [PATCH 47/72] fix: what a failed attempt did to allow_partial was
 left behind for the next choice, step or default

---
 src/input/return_enums.rs          |  2 ++
 src/validators/arguments.rs        |  2 +-
 src/validators/arguments_v3.rs     |  2 +-
 src/validators/dataclass.rs        |  2 +-
 src/validators/definitions.rs      |  2 +-
 src/validators/dict.rs             |  3 ++-
 src/validators/generator.rs        |  2 +-
 src/validators/model_fields.rs     |  2 +-
 src/validators/tuple.rs            |  2 +-
 src/validators/typed_dict.rs       |  1 +
 src/validators/validation_state.rs | 40 ++++++++++++++++++++++++++++++
 src/validators/with_default.rs     |  2 ++
 12 files changed, 54 insertions(+), 8 deletions(-)

diff --git a/src/input/return_enums.rs b/src/input/return_enums.rs
index 53b97f8..f17cab9 100644
--- a/src/input/return_enums.rs
+++ b/src/input/return_enums.rs
@@ -131,6 +131,7 @@ pub(crate) fn validate_iter_to_vec<'py>(
     let mut output: Vec<PyObject> = Vec::with_capacity(capacity);
     let mut errors: Vec<ValLineError> = Vec::new();
     let allow_partial = state.allow_partial;
+    let state = &mut state.rebind_partial(allow_partial);
 
     for (index, is_last_partial, item_result) in state.enumerate_last_partial(iter) {
         state.allow_partial = match is_last_partial {
@@ -228,6 +229,7 @@ pub(crate) fn validate_iter_to_set<'py>(
     let mut errors: Vec<ValLineError> = Vec::new();
 
     let allow_partial = state.allow_partial;
+    let state = &mut state.rebind_partial(allow_partial);
 
     for (index, is_last_partial, item_result) in state.enumerate_last_partial(iter) {
         state.allow_partial = match is_last_partial {
diff --git a/src/validators/arguments.rs b/src/validators/arguments.rs
index e62684a..fc7837f 100644
--- a/src/validators/arguments.rs
+++ b/src/validators/arguments.rs
@@ -190,7 +190,7 @@ impl Validator for ArgumentsValidator {
         state: &mut ValidationState<'_, 'py>,
     ) -> ValResult<PyObject> {
         // this validator does not yet support partial validation, disable it to avoid incorrect results
-        state.allow_partial = false.into();
+        let state = &mut state.rebind_partial(false.into());
 
         let args = input.validate_args()?;
 
diff --git a/src/validators/arguments_v3.rs b/src/validators/arguments_v3.rs
index 31263cb..0b5fc22 100644
--- a/src/validators/arguments_v3.rs
+++ b/src/validators/arguments_v3.rs
@@ -782,7 +782,7 @@ impl Validator for ArgumentsV3Validator {
         state: &mut ValidationState<'_, 'py>,
     ) -> ValResult<PyObject> {
         // this validator does not yet support partial validation, disable it to avoid incorrect results
-        state.allow_partial = false.into();
+        let state = &mut state.rebind_partial(false.into());
 
         let args_dict = input.validate_dict(false);
 
diff --git a/src/validators/dataclass.rs b/src/validators/dataclass.rs
index b7ac031..d0d03d1 100644
--- a/src/validators/dataclass.rs
+++ b/src/validators/dataclass.rs
@@ -145,7 +145,7 @@ impl Validator for DataclassArgsValidator {
         state: &mut ValidationState<'_, 'py>,
     ) -> ValResult<PyObject> {
         // this validator does not yet support partial validation, disable it to avoid incorrect results
-        state.allow_partial = false.into();
+        let state = &mut state.rebind_partial(false.into());
 
         let args = input.validate_dataclass_args(&self.dataclass_name)?;
 
diff --git a/src/validators/definitions.rs b/src/validators/definitions.rs
index aeeb627..97c7120 100644
--- a/src/validators/definitions.rs
+++ b/src/validators/definitions.rs
@@ -76,7 +76,7 @@ impl Validator for DefinitionRefValidator {
         state: &mut ValidationState<'_, 'py>,
     ) -> ValResult<PyObject> {
         // this validator does not yet support partial validation, disable it to avoid incorrect results
-        state.allow_partial = false.into();
+        let state: &mut ValidationState = &mut state.rebind_partial(false.into());
 
         self.definition.read(|validator| {
             let validator = validator.unwrap();
diff --git a/src/validators/dict.rs b/src/validators/dict.rs
index b65b38f..362ae81 100644
--- a/src/validators/dict.rs
+++ b/src/validators/dict.rs
@@ -73,6 +73,7 @@ impl Validator for DictValidator {
     ) -> ValResult<PyObject> {
         let strict = state.strict_or(self.strict);
         let dict = input.validate_dict(strict)?;
+        let allow_partial = state.allow_partial;
         dict.iterate(ValidateToDict {
             py,
             input,
@@ -80,7 +81,7 @@ impl Validator for DictValidator {
             max_length: self.max_length,
             key_validator: &self.key_validator,
             value_validator: &self.value_validator,
-            state,
+            state: &mut state.rebind_partial(allow_partial),
         })?
     }
 
diff --git a/src/validators/generator.rs b/src/validators/generator.rs
index f1f95ac..5cdb2cc 100644
--- a/src/validators/generator.rs
+++ b/src/validators/generator.rs
@@ -67,7 +67,7 @@ impl Validator for GeneratorValidator {
         state: &mut ValidationState<'_, 'py>,
     ) -> ValResult<PyObject> {
         // this validator does not yet support partial validation, disable it to avoid incorrect results
-        state.allow_partial = false.into();
+        let state = &mut state.rebind_partial(false.into());
 
         let iterator = input.validate_iter()?.into_static();
         let validator = self.item_validator.as_ref().map(|v| {
diff --git a/src/validators/model_fields.rs b/src/validators/model_fields.rs
index f4ba27c..7297bd0 100644
--- a/src/validators/model_fields.rs
+++ b/src/validators/model_fields.rs
@@ -128,7 +128,7 @@ impl Validator for ModelFieldsValidator {
         state: &mut ValidationState<'_, 'py>,
     ) -> ValResult<PyObject> {
         // this validator does not yet support partial validation, disable it to avoid incorrect results
-        state.allow_partial = false.into();
+        let state = &mut state.rebind_partial(false.into());
 
         let strict = state.strict_or(self.strict);
         let from_attributes = state.extra().from_attributes.unwrap_or(self.from_attributes);
diff --git a/src/validators/tuple.rs b/src/validators/tuple.rs
index 8d3fbda..b9456d5 100644
--- a/src/validators/tuple.rs
+++ b/src/validators/tuple.rs
@@ -274,7 +274,7 @@ impl Validator for TupleValidator {
         state: &mut ValidationState<'_, 'py>,
     ) -> ValResult<PyObject> {
         // this validator does not yet support partial validation, disable it to avoid incorrect results
-        state.allow_partial = false.into();
+        let state = &mut state.rebind_partial(false.into());
 
         let collection = input.validate_tuple(state.strict_or(self.strict))?.unpack(state);
         let actual_length = collection.len();
diff --git a/src/validators/typed_dict.rs b/src/validators/typed_dict.rs
index d9dcebc..ce30e23 100644
--- a/src/validators/typed_dict.rs
+++ b/src/validators/typed_dict.rs
@@ -167,6 +167,7 @@ impl Validator for TypedDictValidator {
             None
         };
         let allow_partial = state.allow_partial;
+        let state = &mut state.rebind_partial(allow_partial);
 
         let validate_by_alias = state.validate_by_alias_or(self.validate_by_alias);
         let validate_by_name = state.validate_by_name_or(self.validate_by_name);
diff --git a/src/validators/validation_state.rs b/src/validators/validation_state.rs
index b5bf37f..547a7d2 100644
--- a/src/validators/validation_state.rs
+++ b/src/validators/validation_state.rs
@@ -52,6 +52,21 @@ impl<'a, 'py> ValidationState<'a, 'py> {
         ValidationStateWithReboundExtra { state: self, old_extra }
     }
 
+    /// Temporarily sets `allow_partial`.
+    ///
+    /// When `ValidationStateWithReboundPartial` drops, `allow_partial` is restored to its original value, whatever
+    /// happened to it in between.
+    pub fn rebind_partial<'state>(
+        &'state mut self,
+        allow_partial: PartialMode,
+    ) -> ValidationStateWithReboundPartial<'state, 'a, 'py> {
+        let old_partial = std::mem::replace(&mut self.allow_partial, allow_partial);
+        ValidationStateWithReboundPartial {
+            state: self,
+            old_partial,
+        }
+    }
+
     pub fn extra(&self) -> &'_ Extra<'a, 'py> {
         &self.extra
     }
@@ -133,6 +148,31 @@ impl Drop for ValidationStateWithReboundExtra<'_, '_, '_> {
     }
 }
 
+pub struct ValidationStateWithReboundPartial<'state, 'a, 'py> {
+    state: &'state mut ValidationState<'a, 'py>,
+    old_partial: PartialMode,
+}
+
+impl<'a, 'py> std::ops::Deref for ValidationStateWithReboundPartial<'_, 'a, 'py> {
+    type Target = ValidationState<'a, 'py>;
+
+    fn deref(&self) -> &Self::Target {
+        self.state
+    }
+}
+
+impl std::ops::DerefMut for ValidationStateWithReboundPartial<'_, '_, '_> {
+    fn deref_mut(&mut self) -> &mut Self::Target {
+        self.state
+    }
+}
+
+impl Drop for ValidationStateWithReboundPartial<'_, '_, '_> {
+    fn drop(&mut self) {
+        self.state.allow_partial = self.old_partial;
+    }
+}
+
 /// Similar to `iter.enumerate()` but also returns a bool indicating if we're at the last element.
 pub struct EnumerateLastPartial<I: Iterator> {
     iter: I,
diff --git a/src/validators/with_default.rs b/src/validators/with_default.rs
index b6c7f2f..7971fcf 100644
--- a/src/validators/with_default.rs
+++ b/src/validators/with_default.rs
@@ -189,6 +189,8 @@ impl Validator for WithDefaultValidator {
                     stored_dft
                 };
                 if self.validate_default {
+                    // a default is not part of the input, so it's never partial
+                    let state = &mut state.rebind_partial(false.into());
                     // NB: not `self.validate`, a default must not be replaced by itself if it is invalid
                     match self.validator.validate(py, dft.bind(py), state) {
                         Ok(v) => Ok(Some(v)),
-- 
2.43.0


From eb03952ffb0bfcaee68709d7511e07c376e14d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:59 +0000
Subject: [PATCH 48/72] fix: don't add a documentation URL to custom errors in
 ValidationError.json()

---
 src/errors/validation_exception.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/errors/validation_exception.rs b/src/errors/validation_exception.rs
index 16e89eb..c41162f 100644
--- a/src/errors/validation_exception.rs
+++ b/src/errors/validation_exception.rs
@@ -658,7 +658,10 @@ impl Serialize for PyLineErrorSerializer<'_> {
             }
         }
         if let Some(url_prefix) = self.url_prefix {
-            map.serialize_entry("url", &self.line_error.get_error_url(url_prefix))?;
+            // Don't add URLs for custom errors, same as in `as_dict`
+            if !matches!(self.line_error.error_type, ErrorType::CustomError { .. }) {
+                map.serialize_entry("url", &self.line_error.get_error_url(url_prefix))?;
+            }
         }
         map.end()
     }
-- 
2.43.0


From 3a38fc672f78e139a1b6c8db024046b2b8f6086c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:59 +0000
Subject: [PATCH 49/72] fix: keep `error_type` and `message_template` keys of
 the context of a custom error

---
 src/errors/types.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/errors/types.rs b/src/errors/types.rs
index 0c75e1e..6874e68 100644
--- a/src/errors/types.rs
+++ b/src/errors/types.rs
@@ -747,20 +747,19 @@ impl ErrorType {
     }
 
     pub fn py_dict(&self, py: Python) -> PyResult<Option<Py<PyDict>>> {
+        if let Self::CustomError { context, .. } = self {
+            // Custom error type and message are handled separately by the caller.
+            // They are added to the root of the ErrorDetails.
+            return context
+                .as_ref()
+                .map(|ctx| ctx.bind(py).copy().map(Bound::unbind))
+                .transpose();
+        }
+
         let dict = PyDict::new(py);
         let custom_ctx_used = self.py_dict_update_ctx(py, &dict)?;
 
-        if let Self::CustomError { .. } = self {
-            if custom_ctx_used {
-                // Custom error type and message are handled separately by the caller.
-                // They are added to the root of the ErrorDetails.
-                dict.del_item("error_type")?;
-                dict.del_item("message_template")?;
-                Ok(Some(dict.into()))
-            } else {
-                Ok(None)
-            }
-        } else if custom_ctx_used || !dict.is_empty() {
+        if custom_ctx_used || !dict.is_empty() {
             Ok(Some(dict.into()))
         } else {
             Ok(None)
-- 
2.43.0


From ea652f94e696d1d5532644a2c646d3985c07c0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:59 +0000
Subject: [PATCH 50/72] fix: keep big integers in the context of an error exact

---
 src/errors/types.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/errors/types.rs b/src/errors/types.rs
index 6874e68..f4bf8af 100644
--- a/src/errors/types.rs
+++ b/src/errors/types.rs
@@ -13,7 +13,7 @@ use strum::{Display, EnumMessage, IntoEnumIterator};
 use strum_macros::EnumIter;
 
 use crate::input::{InputType, Int};
-use crate::tools::{extract_i64, py_err, py_error_type};
+use crate::tools::{extract_int, py_err, py_error_type};
 
 use super::PydanticCustomError;
 
@@ -803,8 +803,8 @@ impl From<Int> for Number {
 
 impl FromPyObject<'_> for Number {
     fn extract_bound(obj: &Bound<'_, PyAny>) -> PyResult<Self> {
-        if let Some(int) = extract_i64(obj) {
-            Ok(Number::Int(int))
+        if let Some(int) = extract_int(obj) {
+            Ok(int.into())
         } else if let Ok(float) = obj.extract::<f64>() {
             Ok(Number::Float(float))
         } else if let Ok(string) = obj.extract::<String>() {
-- 
2.43.0


From 3fa5afe6ba0b1a31ce7fb0bd468796a5cada3f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:59 +0000
Subject: [PATCH 51/72] fix: don't panic when the title of a ValidationError
 isn't a valid unicode string

---
 src/errors/validation_exception.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/errors/validation_exception.rs b/src/errors/validation_exception.rs
index c41162f..9e70014 100644
--- a/src/errors/validation_exception.rs
+++ b/src/errors/validation_exception.rs
@@ -100,7 +100,10 @@ impl ValidationError {
         } else {
             let count = self.line_errors.len();
             let plural = if count == 1 { "" } else { "s" };
-            let title: &str = self.title.extract(py).unwrap();
+            let title = match self.title.bind(py).str() {
+                Ok(title) => title.to_string_lossy().into_owned(),
+                Err(_) => safe_repr(self.title.bind(py)).to_string(),
+            };
             format!("{count} validation error{plural} for {title}\n{line_errors}")
         }
     }
-- 
2.43.0


From a914b02f53108b522cbe19a877aa9b053ac428f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:57 +0000
Subject: [PATCH 52/72] fix: don't replace placeholders inside the values put
 into an error message

---
 src/errors/types.rs           | 37 +++++++++++++++++++++++------------
 src/errors/value_exception.rs | 31 ++++++++++++++++-------------
 2 files changed, 42 insertions(+), 26 deletions(-)

diff --git a/src/errors/types.rs b/src/errors/types.rs
index f4bf8af..ade788e 100644
--- a/src/errors/types.rs
+++ b/src/errors/types.rs
@@ -435,26 +435,39 @@ error_types! {
 
 macro_rules! render {
     ($template:ident, $($value:ident),* $(,)?) => {
-        Ok(
-            $template
-            $(
-                .replace(concat!("{", stringify!($value), "}"), $value)
-            )*
-        )
+        Ok(fill_template($template, &[$((stringify!($value), &**$value)),*]))
     };
 }
 
 macro_rules! to_string_render {
     ($template:ident, $($value:ident),* $(,)?) => {
-        Ok(
-            $template
-            $(
-                .replace(concat!("{", stringify!($value), "}"), &$value.to_string())
-            )*
-        )
+        Ok(fill_template($template, &[$((stringify!($value), $value.to_string())),*]))
     };
 }
 
+/// Replace each `{key}` of the template by its value, values which look like a placeholder are left as they are.
+pub(super) fn fill_template<K: AsRef<str>, V: AsRef<str>>(template: &str, values: &[(K, V)]) -> String {
+    let mut message = String::with_capacity(template.len());
+    let mut rest = template;
+    while let Some(start) = rest.find('{') {
+        message.push_str(&rest[..start]);
+        rest = &rest[start..];
+        let placeholder = values.iter().find_map(|(key, value)| {
+            let after = rest[1..].strip_prefix(key.as_ref())?.strip_prefix('}')?;
+            Some((value, after))
+        });
+        if let Some((value, after)) = placeholder {
+            message.push_str(value.as_ref());
+            rest = after;
+        } else {
+            message.push('{');
+            rest = &rest[1..];
+        }
+    }
+    message.push_str(rest);
+    message
+}
+
 fn plural_s<T: From<u8> + PartialEq>(value: T) -> &'static str {
     if value == 1.into() {
         ""
diff --git a/src/errors/value_exception.rs b/src/errors/value_exception.rs
index d428dc5..a44a54f 100644
--- a/src/errors/value_exception.rs
+++ b/src/errors/value_exception.rs
@@ -6,6 +6,7 @@ use crate::input::InputType;
 use crate::tools::extract_i64;
 
 use super::line_error::ToErrorValue;
+use super::types::fill_template;
 use super::{ErrorType, ValError};
 
 #[pyclass(extends=PyException, module="pydantic_core._pydantic_core")]
@@ -117,21 +118,23 @@ impl PydanticCustomError {
     }
 
     pub fn format_message(message_template: &str, context: Option<&Bound<'_, PyDict>>) -> PyResult<String> {
-        let mut message = message_template.to_string();
-        if let Some(ctx) = context {
-            for (key, value) in ctx.iter() {
-                let key = key.downcast::<PyString>()?;
-                if let Ok(py_str) = value.downcast::<PyString>() {
-                    message = message.replace(&format!("{{{}}}", key.to_str()?), py_str.to_str()?);
-                } else if let Some(value_int) = extract_i64(&value) {
-                    message = message.replace(&format!("{{{}}}", key.to_str()?), &value_int.to_string());
-                } else {
-                    // fallback for anything else just in case
-                    message = message.replace(&format!("{{{}}}", key.to_str()?), &value.to_string());
-                }
-            }
+        let Some(ctx) = context else {
+            return Ok(message_template.to_string());
+        };
+        let mut values = Vec::with_capacity(ctx.len());
+        for (key, value) in ctx.iter() {
+            let key = key.downcast::<PyString>()?.to_str()?.to_string();
+            let value = if let Ok(py_str) = value.downcast::<PyString>() {
+                py_str.to_str()?.to_string()
+            } else if let Some(value_int) = extract_i64(&value) {
+                value_int.to_string()
+            } else {
+                // fallback for anything else just in case
+                value.to_string()
+            };
+            values.push((key, value));
         }
-        Ok(message)
+        Ok(fill_template(message_template, &values))
     }
 }
 
-- 
2.43.0


From 37dd4eefcdc922bdeed68e3123e74fe5f5643cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:33 +0000
Subject: [PATCH 53/72] fix: pickle a ValidationError with custom errors

---
 src/errors/validation_exception.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/errors/validation_exception.rs b/src/errors/validation_exception.rs
index 9e70014..bcdced5 100644
--- a/src/errors/validation_exception.rs
+++ b/src/errors/validation_exception.rs
@@ -396,9 +396,22 @@ impl ValidationError {
         let py = slf.py();
         let callable = slf.getattr("from_exception_data")?;
         let borrow = slf.try_borrow()?;
+        let errors = borrow.errors(py, include_url_env(py), true, true)?;
+        for (error, line_error) in errors.bind(py).iter().zip(&borrow.line_errors) {
+            if let ErrorType::CustomError {
+                error_type,
+                message_template,
+                context,
+            } = &line_error.error_type
+            {
+                // the type of a custom error isn't enough for `from_exception_data` to recreate it
+                let custom_error = py.get_type::<PydanticCustomError>();
+                error.set_item("type", custom_error.call1((error_type, message_template, context))?)?;
+            }
+        }
         let args = (
             &borrow.title,
-            borrow.errors(py, include_url_env(py), true, true)?,
+            errors,
             borrow.input_type,
             borrow.hide_input,
         )
-- 
2.43.0


From b35775e993e046bbc2e6fe75a9b2cb19836eb5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:49 +0000
Subject: [PATCH 54/72] fix: forget an object which is refused because of its
 depth in the recursion guard

---
 src/recursion_guard.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/recursion_guard.rs b/src/recursion_guard.rs
index b1f07ed..b1cb82a 100644
--- a/src/recursion_guard.rs
+++ b/src/recursion_guard.rs
@@ -35,6 +35,8 @@ impl<S: ContainsRecursionState> RecursionGuard<'_, S> {
                 return Err(RecursionError::Cyclic);
             }
             if state.incr_depth() {
+                // there will be no guard to remove this again
+                state.remove(obj_id, node_id);
                 return Err(RecursionError::Depth);
             }
             Ok(())
-- 
2.43.0


From f637ae90bbbc4d170c3d510ad9b7f2d76271fbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:04 +0000
Subject: [PATCH 55/72] fix: detect recursion in strings and JSON input, where
 it made the stack overflow

---
 src/input/input_abstract.rs   |  5 +++++
 src/input/input_python.rs     |  4 ++++
 src/input/input_string.rs     |  7 +++++++
 src/recursion_guard.rs        | 30 ++++++++++++++++++++++++++++--
 src/validators/definitions.rs | 24 ++++++++++++------------
 5 files changed, 56 insertions(+), 14 deletions(-)

diff --git a/src/input/input_abstract.rs b/src/input/input_abstract.rs
index 119c862..47a54b9 100644
--- a/src/input/input_abstract.rs
+++ b/src/input/input_abstract.rs
@@ -73,6 +73,11 @@ pub trait Input<'py>: fmt::Debug {
         None
     }
 
+    /// The identity of the Python object behind the input, unless it's data which can't be cyclic
+    fn python_identity(&self) -> Option<usize> {
+        None
+    }
+
     fn as_kwargs(&self, py: Python<'py>) -> Option<Bound<'py, PyDict>>;
 
     type Arguments<'a>: Arguments<'py>
diff --git a/src/input/input_python.rs b/src/input/input_python.rs
index df4eac0..ff7d79e 100644
--- a/src/input/input_python.rs
+++ b/src/input/input_python.rs
@@ -92,6 +92,10 @@ impl<'py> Input<'py> for Bound<'py, PyAny> {
         Some(self)
     }
 
+    fn python_identity(&self) -> Option<usize> {
+        Some(self.as_ptr() as usize)
+    }
+
     fn as_kwargs(&self, _py: Python<'py>) -> Option<Bound<'py, PyDict>> {
         self.downcast::<PyDict>().ok().map(Bound::to_owned)
     }
diff --git a/src/input/input_string.rs b/src/input/input_string.rs
index 0ab4ad0..e39ba1b 100644
--- a/src/input/input_string.rs
+++ b/src/input/input_string.rs
@@ -75,6 +75,13 @@ impl<'py> Input<'py> for StringMapping<'py> {
         }
     }
 
+    fn python_identity(&self) -> Option<usize> {
+        match self {
+            Self::String(s) => Some(s.as_ptr() as usize),
+            Self::Mapping(d) => Some(d.as_ptr() as usize),
+        }
+    }
+
     fn as_kwargs(&self, _py: Python<'py>) -> Option<Bound<'py, PyDict>> {
         None
     }
diff --git a/src/recursion_guard.rs b/src/recursion_guard.rs
index b1cb82a..0d056e7 100644
--- a/src/recursion_guard.rs
+++ b/src/recursion_guard.rs
@@ -16,6 +16,7 @@ pub(crate) struct RecursionGuard<'a, S: ContainsRecursionState> {
     state: &'a mut S,
     obj_id: usize,
     node_id: usize,
+    counted: bool,
 }
 
 pub(crate) enum RecursionError {
@@ -41,7 +42,30 @@ impl<S: ContainsRecursionState> RecursionGuard<'_, S> {
             }
             Ok(())
         })?;
-        Ok(RecursionGuard { state, obj_id, node_id })
+        Ok(RecursionGuard {
+            state,
+            obj_id,
+            node_id,
+            counted: true,
+        })
+    }
+
+    /// Like `new`, for objects whose nesting is known to be limited already (e.g. parsed JSON), so that
+    /// it's enough to detect that the same object is visited again.
+    pub fn new_uncounted(
+        state: &'_ mut S,
+        obj_id: usize,
+        node_id: usize,
+    ) -> Result<RecursionGuard<'_, S>, RecursionError> {
+        if !state.access_recursion_state(|state| state.insert(obj_id, node_id)) {
+            return Err(RecursionError::Cyclic);
+        }
+        Ok(RecursionGuard {
+            state,
+            obj_id,
+            node_id,
+            counted: false,
+        })
     }
 
     /// Retrieves the underlying state for further use.
@@ -53,7 +77,9 @@ impl<S: ContainsRecursionState> RecursionGuard<'_, S> {
 impl<S: ContainsRecursionState> Drop for RecursionGuard<'_, S> {
     fn drop(&mut self) {
         self.state.access_recursion_state(|state| {
-            state.decr_depth();
+            if self.counted {
+                state.decr_depth();
+            }
             state.remove(self.obj_id, self.node_id);
         });
     }
diff --git a/src/validators/definitions.rs b/src/validators/definitions.rs
index 97c7120..11f47cb 100644
--- a/src/validators/definitions.rs
+++ b/src/validators/definitions.rs
@@ -80,15 +80,19 @@ impl Validator for DefinitionRefValidator {
 
         self.definition.read(|validator| {
             let validator = validator.unwrap();
-            if let Some(id) = input.as_python().map(py_identity) {
+            let guard = if let Some(id) = input.python_identity() {
                 // Python objects can be cyclic, so need recursion guard
-                let Ok(mut guard) = RecursionGuard::new(state, id, self.definition.id()) else {
-                    return Err(ValError::new(ErrorTypeDefaults::RecursionLoop, input));
-                };
-                validator.validate(py, input, guard.state())
+                RecursionGuard::new(state, id, self.definition.id())
             } else {
-                validator.validate(py, input, state)
-            }
+                // JSON can't be cyclic and its depth is limited, but the definition might refer to itself
+                // without looking into the input
+                let address = std::ptr::from_ref(input).cast::<()>() as usize;
+                RecursionGuard::new_uncounted(state, address, self.definition.id())
+            };
+            let Ok(mut guard) = guard else {
+                return Err(ValError::new(ErrorTypeDefaults::RecursionLoop, input));
+            };
+            validator.validate(py, input, guard.state())
         })
     }
 
@@ -114,7 +118,7 @@ impl Validator for DefinitionRefValidator {
     ) -> ValResult<PyObject> {
         self.definition.read(|validator| {
             let validator = validator.unwrap();
-            let Ok(mut guard) = RecursionGuard::new(state, py_identity(obj), self.definition.id()) else {
+            let Ok(mut guard) = RecursionGuard::new(state, obj.as_ptr() as usize, self.definition.id()) else {
                 return Err(ValError::new(ErrorTypeDefaults::RecursionLoop, obj));
             };
             validator.validate_assignment(py, obj, field_name, field_value, guard.state())
@@ -125,7 +129,3 @@ impl Validator for DefinitionRefValidator {
         self.definition.get_or_init_name(|v| v.get_name().into())
     }
 }
-
-fn py_identity(obj: &Bound<'_, PyAny>) -> usize {
-    obj.as_ptr() as usize
-}
-- 
2.43.0


From 14cde11400903052ae339d48ea5e46865457770e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:04 +0000
Subject: [PATCH 56/72] fix: detect recursion in the serializer of a key, where
 it made the stack overflow

---
 src/serializers/type_serializers/definitions.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/serializers/type_serializers/definitions.rs b/src/serializers/type_serializers/definitions.rs
index 38fd7ce..ad2a43c 100644
--- a/src/serializers/type_serializers/definitions.rs
+++ b/src/serializers/type_serializers/definitions.rs
@@ -98,8 +98,11 @@ impl TypeSerializer for DefinitionRefSerializer {
         })
     }
 
-    fn json_key<'a>(&self, key: &'a Bound<'_, PyAny>, extra: &Extra) -> PyResult<Cow<'a, str>> {
-        self.definition.read(|s| s.unwrap().json_key(key, extra))
+    fn json_key<'a>(&self, key: &'a Bound<'_, PyAny>, mut extra: &Extra) -> PyResult<Cow<'a, str>> {
+        self.definition.read(|s| {
+            let mut guard = extra.recursion_guard(key, self.definition.id())?;
+            s.unwrap().json_key(key, guard.state())
+        })
     }
 
     fn serde_serialize<S: serde::ser::Serializer>(
-- 
2.43.0


From 58b81ff171608d8451aff794d1685362f767171b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:37 +0000
Subject: [PATCH 57/72] fix: limit the depth of defaults which need themselves,
 where it made the stack overflow

---
 src/validators/definitions.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/validators/definitions.rs b/src/validators/definitions.rs
index 11f47cb..4b2c424 100644
--- a/src/validators/definitions.rs
+++ b/src/validators/definitions.rs
@@ -98,13 +98,19 @@ impl Validator for DefinitionRefValidator {
 
     fn default_value<'py>(
         &self,
-        _py: Python<'py>,
-        _outer_loc: Option<impl Into<crate::errors::LocItem>>,
-        _state: &mut ValidationState<'_, 'py>,
+        py: Python<'py>,
+        outer_loc: Option<impl Into<crate::errors::LocItem>>,
+        state: &mut ValidationState<'_, 'py>,
     ) -> ValResult<Option<PyObject>> {
         self.definition.read(|validator| {
             let validator = validator.unwrap();
-            validator.default_value(_py, _outer_loc, _state)
+            // there's no input to recognise, but a default which needs itself may recurse for ever
+            if state.recursion_guard.incr_depth() {
+                return Err(ValError::new(ErrorTypeDefaults::RecursionLoop, py.None().bind(py)));
+            }
+            let result = validator.default_value(py, outer_loc, state);
+            state.recursion_guard.decr_depth();
+            result
         })
     }
 
-- 
2.43.0


From c56226871670cbec1dca017a5a5607a68c8e020f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:37 +0000
Subject: [PATCH 58/72] fix: don't count what is refused because of its depth
 in the recursion guard

---
 src/recursion_guard.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/recursion_guard.rs b/src/recursion_guard.rs
index 0d056e7..00355e7 100644
--- a/src/recursion_guard.rs
+++ b/src/recursion_guard.rs
@@ -129,10 +129,12 @@ impl RecursionState {
         {
             debug_assert!(RECURSION_GUARD_LIMIT < 255);
         }
-        // use saturating_add as it's faster (since there's no error path)
-        // and the RECURSION_GUARD_LIMIT check will be hit before it overflows
-        self.depth = self.depth.saturating_add(1);
-        self.depth > RECURSION_GUARD_LIMIT
+        // don't count what is refused, as it won't be followed by `decr_depth`
+        if self.depth >= RECURSION_GUARD_LIMIT {
+            return true;
+        }
+        self.depth += 1;
+        false
     }
 
     #[must_use]
-- 
2.43.0


From 0fe3a0d9ae62a444f1479cef1a389bd1860391ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:20 +0000
Subject: [PATCH 59/72] fix: give the location of a recursion error in default
 values

---
 src/validators/definitions.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/validators/definitions.rs b/src/validators/definitions.rs
index 4b2c424..ad368b3 100644
--- a/src/validators/definitions.rs
+++ b/src/validators/definitions.rs
@@ -106,7 +106,11 @@ impl Validator for DefinitionRefValidator {
             let validator = validator.unwrap();
             // there's no input to recognise, but a default which needs itself may recurse for ever
             if state.recursion_guard.incr_depth() {
-                return Err(ValError::new(ErrorTypeDefaults::RecursionLoop, py.None().bind(py)));
+                let err = ValError::new(ErrorTypeDefaults::RecursionLoop, py.None().bind(py));
+                return match outer_loc {
+                    Some(outer_loc) => Err(err.with_outer_location(outer_loc)),
+                    None => Err(err),
+                };
             }
             let result = validator.default_value(py, outer_loc, state);
             state.recursion_guard.decr_depth();
-- 
2.43.0


From 1b1d1190013a21b6131fa6742d23c5f4491ae214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:10 +0000
Subject: [PATCH 60/72] fix: consider defaults of definitions for
 exclude_defaults

---
 src/serializers/type_serializers/definitions.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/serializers/type_serializers/definitions.rs b/src/serializers/type_serializers/definitions.rs
index ad2a43c..7b03382 100644
--- a/src/serializers/type_serializers/definitions.rs
+++ b/src/serializers/type_serializers/definitions.rs
@@ -131,4 +131,11 @@ impl TypeSerializer for DefinitionRefSerializer {
             .retry_with_lax_check
             .get_or_init(|| self.definition.read(|s| s.unwrap().retry_with_lax_check()), &false)
     }
+
+    fn get_default(&self, py: Python) -> PyResult<Option<PyObject>> {
+        self.definition.read(|s| match s.unwrap() {
+            CombinedSerializer::WithDefault(s) => s.get_default(py),
+            _ => Ok(None),
+        })
+    }
 }
-- 
2.43.0


From e9f3ede165d8c33efb102724219bb491f270148b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:09 +0000
Subject: [PATCH 61/72] fix: no panic when a dict or set changes while it's
 iterated over, or a set's iterator raises

---
 src/input/input_python.rs                     | 16 +++++++-----
 src/serializers/infer.rs                      | 26 ++++++++++---------
 src/serializers/type_serializers/dict.rs      |  8 +++---
 .../type_serializers/set_frozenset.rs         |  9 ++++---
 src/tools.rs                                  | 24 ++++++++++++++++-
 5 files changed, 56 insertions(+), 27 deletions(-)

diff --git a/src/input/input_python.rs b/src/input/input_python.rs
index ff7d79e..f42e321 100644
--- a/src/input/input_python.rs
+++ b/src/input/input_python.rs
@@ -14,7 +14,7 @@ use pyo3::PyTypeInfo;
 use speedate::MicrosecondsPrecisionOverflowBehavior;
 
 use crate::errors::{ErrorType, ErrorTypeDefaults, InputValue, LocItem, ValError, ValResult};
-use crate::tools::{extract_i64, safe_repr};
+use crate::tools::{dict_items, extract_i64, safe_repr};
 use crate::validators::complex::string_to_complex;
 use crate::validators::decimal::{create_decimal, get_decimal_type};
 use crate::validators::Exactness;
@@ -815,7 +815,7 @@ impl<'py> KeywordArgs<'py> for PyKwargs<'py> {
     }
 
     fn iter(&self) -> impl Iterator<Item = ValResult<(Self::Key<'_>, Self::Item<'_>)>> {
-        self.0.iter().map(Ok)
+        dict_items(&self.0).map(|item| item.map_err(Into::into))
     }
 }
 
@@ -857,7 +857,9 @@ impl<'py> ValidatedDict<'py> for GenericPyMapping<'_, 'py> {
         consumer: impl ConsumeIterator<ValResult<(Self::Key<'a>, Self::Item<'a>)>, Output = R>,
     ) -> ValResult<R> {
         match self {
-            Self::Dict(dict) => Ok(consumer.consume_iterator(dict.iter().map(Ok))),
+            Self::Dict(dict) => {
+                Ok(consumer.consume_iterator(dict_items(dict).map(|item| item.map_err(Into::into))))
+            }
             Self::Mapping(mapping) => Ok(consumer.consume_iterator(iterate_mapping_items(mapping)?)),
             Self::GetAttr(obj, _) => Ok(consumer.consume_iterator(iterate_attributes(obj)?)),
         }
@@ -933,8 +935,8 @@ impl<'py> PySequenceIterable<'_, 'py> {
         match self {
             PySequenceIterable::List(iter) => iter.iter().map(Ok).try_for_each(f),
             PySequenceIterable::Tuple(iter) => iter.iter().map(Ok).try_for_each(f),
-            PySequenceIterable::Set(iter) => iter.iter().map(Ok).try_for_each(f),
-            PySequenceIterable::FrozenSet(iter) => iter.iter().map(Ok).try_for_each(f),
+            PySequenceIterable::Set(iter) => iter.try_iter()?.try_for_each(f),
+            PySequenceIterable::FrozenSet(iter) => iter.try_iter()?.try_for_each(f),
             PySequenceIterable::Iterator(mut iter) => iter.try_for_each(f),
         }
     }
@@ -945,8 +947,8 @@ impl<'py> PySequenceIterable<'_, 'py> {
         match self {
             PySequenceIterable::List(iter) => Ok(consumer.consume_iterator(iter.iter().map(Ok))),
             PySequenceIterable::Tuple(iter) => Ok(consumer.consume_iterator(iter.iter().map(Ok))),
-            PySequenceIterable::Set(iter) => Ok(consumer.consume_iterator(iter.iter().map(Ok))),
-            PySequenceIterable::FrozenSet(iter) => Ok(consumer.consume_iterator(iter.iter().map(Ok))),
+            PySequenceIterable::Set(iter) => Ok(consumer.consume_iterator(iter.try_iter()?)),
+            PySequenceIterable::FrozenSet(iter) => Ok(consumer.consume_iterator(iter.try_iter()?)),
             PySequenceIterable::Iterator(iter) => Ok(consumer.consume_iterator(iter.try_iter()?)),
         }
     }
diff --git a/src/serializers/infer.rs b/src/serializers/infer.rs
index 96e5e15..802cf2d 100644
--- a/src/serializers/infer.rs
+++ b/src/serializers/infer.rs
@@ -12,7 +12,7 @@ use serde::ser::{Error, Serialize, SerializeMap, SerializeSeq, Serializer};
 
 use crate::input::{EitherTimedelta, Int};
 use crate::serializers::type_serializers;
-use crate::tools::{extract_int, py_err, safe_repr};
+use crate::tools::{dict_items, extract_int, py_err, safe_repr};
 use crate::url::{PyMultiHostUrl, PyUrl};
 
 use super::config::InfNanMode;
@@ -60,13 +60,14 @@ pub(crate) fn infer_to_python_known(
     let extra = guard.state();
 
     macro_rules! serialize_seq {
-        ($t:ty) => {
-            value
-                .downcast::<$t>()?
-                .iter()
-                .map(|v| infer_to_python(&v, None, None, extra))
-                .collect::<PyResult<Vec<PyObject>>>()?
-        };
+        ($t:ty) => {{
+            let py_seq = value.downcast::<$t>()?;
+            let mut items = Vec::with_capacity(py_seq.len());
+            for element in py_seq.try_iter()? {
+                items.push(infer_to_python(&element?, None, None, extra)?);
+            }
+            items
+        }};
     }
 
     macro_rules! serialize_seq_filter {
@@ -163,7 +164,7 @@ pub(crate) fn infer_to_python_known(
             }
             ObType::Dict => {
                 let dict = value.downcast::<PyDict>()?;
-                serialize_pairs_python(py, dict.iter().map(Ok), include, exclude, extra, |k| {
+                serialize_pairs_python(py, dict_items(dict), include, exclude, extra, |k| {
                     Ok(PyString::new(py, &infer_json_key(&k, extra)?).into_any())
                 })?
             }
@@ -265,7 +266,7 @@ pub(crate) fn infer_to_python_known(
             }
             ObType::Dict => {
                 let dict = value.downcast::<PyDict>()?;
-                serialize_pairs_python(py, dict.iter().map(Ok), include, exclude, extra, Ok)?
+                serialize_pairs_python(py, dict_items(dict), include, exclude, extra, Ok)?
             }
             ObType::PydanticSerializable => serialize_with_serializer()?,
             ObType::Dataclass => serialize_pairs_python(py, any_dataclass_iter(value)?.0, include, exclude, extra, Ok)?,
@@ -379,7 +380,8 @@ pub(crate) fn infer_serialize_known<S: Serializer>(
         ($t:ty) => {{
             let py_seq = value.downcast::<$t>().map_err(py_err_se_err)?;
             let mut seq = serializer.serialize_seq(Some(py_seq.len()))?;
-            for element in py_seq.iter() {
+            for element in py_seq.try_iter().map_err(py_err_se_err)? {
+                let element = element.map_err(py_err_se_err)?;
                 let item_serializer = SerializeInfer::new(&element, None, None, extra);
                 seq.serialize_element(&item_serializer)?
             }
@@ -441,7 +443,7 @@ pub(crate) fn infer_serialize_known<S: Serializer>(
         }
         ObType::Dict => {
             let dict = value.downcast::<PyDict>().map_err(py_err_se_err)?;
-            serialize_pairs_json(dict.iter().map(Ok), dict.len(), serializer, include, exclude, extra)
+            serialize_pairs_json(dict_items(dict), dict.len(), serializer, include, exclude, extra)
         }
         ObType::List => serialize_seq_filter!(PyList),
         ObType::Tuple => serialize_seq_filter!(PyTuple),
diff --git a/src/serializers/type_serializers/dict.rs b/src/serializers/type_serializers/dict.rs
index feb4509..8b232f8 100644
--- a/src/serializers/type_serializers/dict.rs
+++ b/src/serializers/type_serializers/dict.rs
@@ -8,7 +8,7 @@ use pyo3::IntoPyObjectExt;
 use serde::ser::SerializeMap;
 
 use crate::definitions::DefinitionsBuilder;
-use crate::tools::SchemaDict;
+use crate::tools::{dict_items, SchemaDict};
 
 use super::any::AnySerializer;
 use super::{
@@ -85,7 +85,8 @@ impl TypeSerializer for DictSerializer {
                 let value_serializer = self.value_serializer.as_ref();
 
                 let new_dict = PyDict::new(py);
-                for (key, value) in py_dict.iter() {
+                for item in dict_items(py_dict) {
+                    let (key, value) = item?;
                     let op_next = self.filter.key_filter(&key, include, exclude)?;
                     if let Some((next_include, next_exclude)) = op_next {
                         let key = match extra.mode {
@@ -124,7 +125,8 @@ impl TypeSerializer for DictSerializer {
                 let key_serializer = self.key_serializer.as_ref();
                 let value_serializer = self.value_serializer.as_ref();
 
-                for (key, value) in py_dict.iter() {
+                for item in dict_items(py_dict) {
+                    let (key, value) = item.map_err(py_err_se_err)?;
                     let op_next = self.filter.key_filter(&key, include, exclude).map_err(py_err_se_err)?;
                     if let Some((next_include, next_exclude)) = op_next {
                         let key = key_serializer.json_key(&key, extra).map_err(py_err_se_err)?;
diff --git a/src/serializers/type_serializers/set_frozenset.rs b/src/serializers/type_serializers/set_frozenset.rs
index 08f54c8..ef10efa 100644
--- a/src/serializers/type_serializers/set_frozenset.rs
+++ b/src/serializers/type_serializers/set_frozenset.rs
@@ -11,7 +11,7 @@ use crate::tools::SchemaDict;
 
 use super::any::AnySerializer;
 use super::{
-    infer_serialize, infer_to_python, BuildSerializer, CombinedSerializer, Extra, PydanticSerializer, SerMode,
+    infer_serialize, infer_to_python, py_err_se_err, BuildSerializer, CombinedSerializer, Extra, PydanticSerializer, SerMode,
     TypeSerializer,
 };
 
@@ -61,8 +61,8 @@ macro_rules! build_serializer {
                         let item_serializer = self.item_serializer.as_ref();
 
                         let mut items = Vec::with_capacity(py_set.len());
-                        for element in py_set.iter() {
-                            items.push(item_serializer.to_python(&element, include, exclude, extra)?);
+                        for element in py_set.try_iter()? {
+                            items.push(item_serializer.to_python(&element?, include, exclude, extra)?);
                         }
                         match extra.mode {
                             SerMode::Json => Ok(PyList::new(py, items)?.into()),
@@ -93,7 +93,8 @@ macro_rules! build_serializer {
                         let mut seq = serializer.serialize_seq(Some(py_set.len()))?;
                         let item_serializer = self.item_serializer.as_ref();
 
-                        for value in py_set.iter() {
+                        for value in py_set.try_iter().map_err(py_err_se_err)? {
+                            let value = value.map_err(py_err_se_err)?;
                             let item_serialize =
                                 PydanticSerializer::new(&value, item_serializer, include, exclude, extra);
                             seq.serialize_element(&item_serialize)?;
diff --git a/src/tools.rs b/src/tools.rs
index 96146d3..9bab0ef 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -2,7 +2,7 @@ use core::fmt;
 
 use num_bigint::BigInt;
 
-use pyo3::exceptions::PyKeyError;
+use pyo3::exceptions::{PyKeyError, PyRuntimeError};
 use pyo3::prelude::*;
 use pyo3::types::{PyDict, PyString};
 use pyo3::{intern, FromPyObject};
@@ -10,6 +10,28 @@ use pyo3::{intern, FromPyObject};
 use crate::input::Int;
 use jiter::{cached_py_string, pystring_fast_new, StringCacheMode};
 
+/// The items of a dict, with a `RuntimeError` (instead of a panic) if the dict is changed meanwhile by Python code which
+/// is called for its items.
+pub fn dict_items<'py>(
+    dict: &Bound<'py, PyDict>,
+) -> impl Iterator<Item = PyResult<(Bound<'py, PyAny>, Bound<'py, PyAny>)>> {
+    let dict = dict.clone();
+    let len = dict.len();
+    let mut remaining = len;
+    let mut iter = dict.iter();
+    std::iter::from_fn(move || {
+        if remaining == 0 {
+            return None;
+        }
+        if dict.len() != len {
+            remaining = 0;
+            return Some(Err(PyRuntimeError::new_err("dictionary changed size during iteration")));
+        }
+        remaining -= 1;
+        iter.next().map(Ok)
+    })
+}
+
 pub trait SchemaDict<'py> {
     fn get_as<T>(&self, key: &Bound<'py, PyString>) -> PyResult<Option<T>>
     where
-- 
2.43.0


From 4ca8c2ac24760f90c0916b132118258f77060424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:02 +0000
Subject: [PATCH 62/72] fix: no panic when the iterator given for the variadic
 arguments raises, or unpacked kwargs give no dict

---
 src/validators/arguments.rs    |  2 +-
 src/validators/arguments_v3.rs | 18 +++++++++++++-----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/validators/arguments.rs b/src/validators/arguments.rs
index fc7837f..793278c 100644
--- a/src/validators/arguments.rs
+++ b/src/validators/arguments.rs
@@ -392,7 +392,7 @@ impl Validator for ArgumentsValidator {
                 .validate(py, remaining_kwargs.as_any(), state)
             {
                 Ok(value) => {
-                    output_kwargs.update(value.downcast_bound::<PyDict>(py).unwrap().as_mapping())?;
+                    output_kwargs.update(value.downcast_bound::<PyDict>(py)?.as_mapping())?;
                 }
                 Err(ValError::LineErrors(line_errors)) => {
                     errors.extend(line_errors);
diff --git a/src/validators/arguments_v3.rs b/src/validators/arguments_v3.rs
index 0b5fc22..48ff65d 100644
--- a/src/validators/arguments_v3.rs
+++ b/src/validators/arguments_v3.rs
@@ -10,7 +10,7 @@ use pyo3::IntoPyObjectExt;
 use crate::build_tools::py_schema_err;
 use crate::build_tools::{schema_or_config_same, ExtraBehavior};
 use crate::errors::LocItem;
-use crate::errors::{ErrorTypeDefaults, ValError, ValLineError, ValResult};
+use crate::errors::{py_err_string, ErrorType, ErrorTypeDefaults, ValError, ValLineError, ValResult};
 use crate::input::ConsumeIterator;
 use crate::input::{
     Arguments, BorrowInput, Input, KeywordArgs, PositionalArgs, ValidatedDict, ValidatedTuple, ValidationMatch,
@@ -284,7 +284,15 @@ impl ArgumentsV3Validator {
                         Ok(tuple) => {
                             let mut i: i64 = 0;
                             tuple.unpack(state).try_for_each(|v| {
-                                match parameter.validator.validate(py, v.unwrap().borrow_input(), state) {
+                                let v = v.map_err(|e| {
+                                    let error = ErrorType::IterationError {
+                                        error: py_err_string(py, e),
+                                        context: None,
+                                    };
+                                    let val_error = ValLineError::new_with_loc(error, dict_value.borrow_input(), i);
+                                    vec![lookup_path.apply_error_loc(val_error, self.loc_by_alias, &parameter.name)]
+                                })?;
+                                match parameter.validator.validate(py, v.borrow_input(), state) {
                                     Ok(tuple_value) => {
                                         output_args.push(tuple_value);
                                         i += 1;
@@ -371,7 +379,7 @@ impl ArgumentsV3Validator {
                     ParameterMode::VarKwargsUnpackedTypedDict => {
                         match parameter.validator.validate(py, dict_value.borrow_input(), state) {
                             Ok(value) => {
-                                output_kwargs.update(value.downcast_bound::<PyDict>(py).unwrap().as_mapping())?;
+                                output_kwargs.update(value.downcast_bound::<PyDict>(py)?.as_mapping())?;
                             }
                             Err(ValError::LineErrors(line_errors)) => {
                                 errors.extend(
@@ -429,7 +437,7 @@ impl ArgumentsV3Validator {
                     ParameterMode::VarKwargsUnpackedTypedDict => {
                         match parameter.validator.validate(py, PyDict::new(py).borrow_input(), state) {
                             Ok(value) => {
-                                output_kwargs.update(value.downcast_bound::<PyDict>(py).unwrap().as_mapping())?;
+                                output_kwargs.update(value.downcast_bound::<PyDict>(py)?.as_mapping())?;
                             }
                             Err(ValError::LineErrors(line_errors)) => {
                                 errors.extend(
@@ -757,7 +765,7 @@ impl ArgumentsV3Validator {
                 .validate(py, remaining_kwargs.as_any(), state)
             {
                 Ok(value) => {
-                    output_kwargs.update(value.downcast_bound::<PyDict>(py).unwrap().as_mapping())?;
+                    output_kwargs.update(value.downcast_bound::<PyDict>(py)?.as_mapping())?;
                 }
                 Err(ValError::LineErrors(line_errors)) => {
                     errors.extend(line_errors);
-- 
2.43.0


From ab2d3593a5aaa7be46874ac260efe3c2fb312ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:51 +0000
Subject: [PATCH 63/72] fix: no panic when a `default` schema without a default
 is given PydanticUndefined

---
 src/validators/with_default.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/validators/with_default.rs b/src/validators/with_default.rs
index 7971fcf..45d1ffa 100644
--- a/src/validators/with_default.rs
+++ b/src/validators/with_default.rs
@@ -158,20 +158,21 @@ impl Validator for WithDefaultValidator {
         state: &mut ValidationState<'_, 'py>,
     ) -> ValResult<PyObject> {
         if input.as_python().is_some_and(|py_input| py_input.is(&self.undefined)) {
-            Ok(self.default_value(py, None::<usize>, state)?.unwrap())
-        } else {
-            match self.validator.validate(py, input, state) {
-                Ok(v) => Ok(v),
-                Err(e) => match e {
-                    ValError::UseDefault => Ok(self.default_value(py, None::<usize>, state)?.ok_or(e)?),
-                    e => match self.on_error {
-                        OnError::Raise => Err(e),
-                        OnError::Default => Ok(self.default_value(py, None::<usize>, state)?.ok_or(e)?),
-                        OnError::Omit => Err(ValError::Omit),
-                    },
-                },
+            if let Some(default) = self.default_value(py, None::<usize>, state)? {
+                return Ok(default);
             }
         }
+        match self.validator.validate(py, input, state) {
+            Ok(v) => Ok(v),
+            Err(e) => match e {
+                ValError::UseDefault => Ok(self.default_value(py, None::<usize>, state)?.ok_or(e)?),
+                e => match self.on_error {
+                    OnError::Raise => Err(e),
+                    OnError::Default => Ok(self.default_value(py, None::<usize>, state)?.ok_or(e)?),
+                    OnError::Omit => Err(ValError::Omit),
+                },
+            },
+        }
     }
 
     fn default_value<'py>(
-- 
2.43.0


From 4304621ad78bbe471950a63573b71fae72091be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:43 +0000
Subject: [PATCH 64/72] fix: exact `multiple_of` for decimals of more digits
 than the decimal context's precision, and for infinities

---
 src/validators/decimal.rs | 40 +++++++++++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/validators/decimal.rs b/src/validators/decimal.rs
index 5474068..ccd01e3 100644
--- a/src/validators/decimal.rs
+++ b/src/validators/decimal.rs
@@ -1,3 +1,4 @@
+use num_bigint::BigUint;
 use pyo3::exceptions::{PyTypeError, PyValueError};
 use pyo3::intern;
 use pyo3::sync::GILOnceCell;
@@ -100,6 +101,40 @@ impl_py_gc_traverse!(DecimalValidator {
     gt
 });
 
+/// Whether a decimal is a multiple of another one. The operators of `Decimal` can't tell: they round to (or raise for lack
+/// of) the precision of the current decimal context, and raise for infinities.
+fn is_multiple_of(decimal: &Bound<'_, PyAny>, multiple_of: &Bound<'_, PyAny>) -> PyResult<bool> {
+    let (Some((value, value_exponent)), Some((multiple, multiple_exponent))) =
+        (finite_decimal_parts(decimal)?, finite_decimal_parts(multiple_of)?)
+    else {
+        return Ok(false);
+    };
+    let zero = BigUint::default();
+    if value == zero || multiple == zero {
+        return Ok(value == zero);
+    }
+    if value_exponent >= multiple_exponent {
+        let shift = BigUint::from(value_exponent.abs_diff(multiple_exponent));
+        Ok(value * BigUint::from(10u8).modpow(&shift, &multiple) % multiple == zero)
+    } else {
+        // if the shifted multiple has more digits than the value it can't be a divisor of it
+        match u32::try_from(value_exponent.abs_diff(multiple_exponent)) {
+            Ok(shift) if u64::from(shift) <= value.bits() => Ok(value % (multiple * BigUint::from(10u8).pow(shift)) == zero),
+            _ => Ok(false),
+        }
+    }
+}
+
+/// The absolute value of the coefficient and the exponent of a decimal, `None` if it isn't finite.
+fn finite_decimal_parts(decimal: &Bound<'_, PyAny>) -> PyResult<Option<(BigUint, i64)>> {
+    let (_, digits, exponent): (Bound<'_, PyAny>, Vec<u8>, Bound<'_, PyAny>) =
+        decimal.call_method0(intern!(decimal.py(), "as_tuple"))?.extract()?;
+    match exponent.extract::<i64>() {
+        Ok(exponent) => Ok(BigUint::from_radix_be(&digits, 10).map(|coefficient| (coefficient, exponent))),
+        Err(_) => Ok(None),
+    }
+}
+
 fn extract_decimal_digits_info(decimal: &Bound<'_, PyAny>, normalized: bool) -> ValResult<(u64, u64)> {
     let py = decimal.py();
     let (_, digit_tuple, exponent): (Bound<'_, PyAny>, Bound<'_, PyTuple>, Bound<'_, PyAny>) =
@@ -209,10 +244,7 @@ impl Validator for DecimalValidator {
         }
 
         if let Some(multiple_of) = &self.multiple_of {
-            // fraction = (decimal / multiple_of) % 1
-            let fraction = (decimal.div(multiple_of)?).rem(1)?;
-            let zero = 0u8.into_pyobject(py)?;
-            if !fraction.eq(&zero)? {
+            if !is_multiple_of(&decimal, multiple_of.bind(py))? {
                 return Err(ValError::new(
                     ErrorType::MultipleOf {
                         multiple_of: multiple_of.to_string().into(),
-- 
2.43.0


From 4fd33c60d57e117e0327f5af067d0c864158a917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:24 +0000
Subject: [PATCH 65/72] fix: a too long length claimed by an iterable must not
 abort the process

---
 src/validators/list.rs  | 5 ++++-
 src/validators/tuple.rs | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/validators/list.rs b/src/validators/list.rs
index 96d4bf1..dfd9aae 100644
--- a/src/validators/list.rs
+++ b/src/validators/list.rs
@@ -193,13 +193,16 @@ struct ValidateToVec<'a, 's, 'py, I: Input<'py> + ?Sized> {
 // pretty arbitrary default capacity when creating vecs from iteration
 const DEFAULT_CAPACITY: usize = 10;
 
+// the length an object claims to have might be wrong, so it's not to be relied on for large allocations
+pub(super) const MAX_CAPACITY: usize = 1 << 16;
+
 impl<'py, T, I: Input<'py> + ?Sized> ConsumeIterator<PyResult<T>> for ValidateToVec<'_, '_, 'py, I>
 where
     T: BorrowInput<'py>,
 {
     type Output = ValResult<Vec<PyObject>>;
     fn consume_iterator(self, iterator: impl Iterator<Item = PyResult<T>>) -> ValResult<Vec<PyObject>> {
-        let capacity = self.actual_length.unwrap_or(DEFAULT_CAPACITY);
+        let capacity = self.actual_length.unwrap_or(DEFAULT_CAPACITY).min(MAX_CAPACITY);
         let max_length_check = MaxLengthCheck::new(self.max_length, self.field_type, self.input, self.actual_length);
         validate_iter_to_vec(
             self.py,
diff --git a/src/validators/tuple.rs b/src/validators/tuple.rs
index b9456d5..df71bc8 100644
--- a/src/validators/tuple.rs
+++ b/src/validators/tuple.rs
@@ -10,6 +10,7 @@ use crate::input::ConsumeIterator;
 use crate::input::{BorrowInput, Input, ValidatedTuple};
 use crate::tools::SchemaDict;
 
+use super::list::MAX_CAPACITY;
 use super::{build_validator, BuildValidator, CombinedValidator, DefinitionsBuilder, ValidationState, Validator};
 
 #[derive(Debug)]
@@ -117,7 +118,7 @@ impl TupleValidator {
         } else {
             self.validators.len()
         };
-        let mut output = Vec::with_capacity(expected_length);
+        let mut output = Vec::with_capacity(expected_length.min(MAX_CAPACITY));
         if let Some(variable_validator_index) = self.variadic_item_index {
             let (head_validators, [variable_validator, tail_validators @ ..]) =
                 self.validators.split_at(variable_validator_index)
-- 
2.43.0


From d1a3dfd0348451237b0bd9cec326d72eac9fabe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:36 +0000
Subject: [PATCH 66/72] fix: validate_assignment works for models and
 dataclasses with a prebuilt validator

---
 src/validators/prebuilt.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/validators/prebuilt.rs b/src/validators/prebuilt.rs
index 8aead86..c6a6efc 100644
--- a/src/validators/prebuilt.rs
+++ b/src/validators/prebuilt.rs
@@ -40,6 +40,20 @@ impl Validator for PrebuiltValidator {
         self.schema_validator.get().validator.validate(py, input, state)
     }
 
+    fn validate_assignment<'py>(
+        &self,
+        py: Python<'py>,
+        obj: &Bound<'py, PyAny>,
+        field_name: &str,
+        field_value: &Bound<'py, PyAny>,
+        state: &mut ValidationState<'_, 'py>,
+    ) -> ValResult<PyObject> {
+        self.schema_validator
+            .get()
+            .validator
+            .validate_assignment(py, obj, field_name, field_value, state)
+    }
+
     fn get_name(&self) -> &str {
         self.schema_validator.get().validator.get_name()
     }
-- 
2.43.0


From 14007daba420acf23358067595afb5bd143eab1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:42 +0000
Subject: [PATCH 67/72] fix: garbage collection of validators sees their
 definitions

---
 src/validators/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/validators/mod.rs b/src/validators/mod.rs
index cd166b6..4b234ec 100644
--- a/src/validators/mod.rs
+++ b/src/validators/mod.rs
@@ -373,6 +373,7 @@ impl SchemaValidator {
 
     fn __traverse__(&self, visit: PyVisit<'_>) -> Result<(), PyTraverseError> {
         self.validator.py_gc_traverse(&visit)?;
+        self.definitions.py_gc_traverse(&visit)?;
         visit.call(&self.py_schema)?;
         if let Some(ref py_config) = self.py_config {
             visit.call(py_config)?;
-- 
2.43.0


From 20bcc1e7870fe471274137d99365abb2a88e4fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:42 +0000
Subject: [PATCH 68/72] fix: garbage collection sees every Python object and
 schema held by validators and serializers

---
 src/serializers/fields.rs                 |  3 ++-
 src/serializers/type_serializers/enum_.rs |  2 +-
 src/validators/dataclass.rs               |  5 ++++-
 src/validators/enum_.rs                   | 24 +++++++++++++++++++----
 src/validators/literal.rs                 |  4 ++++
 src/validators/model_fields.rs            |  3 ++-
 6 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/src/serializers/fields.rs b/src/serializers/fields.rs
index 95de90f..d433876 100644
--- a/src/serializers/fields.rs
+++ b/src/serializers/fields.rs
@@ -349,7 +349,8 @@ impl GeneralFieldsSerializer {
 
 impl_py_gc_traverse!(GeneralFieldsSerializer {
     fields,
-    computed_fields
+    computed_fields,
+    extra_serializer
 });
 
 impl TypeSerializer for GeneralFieldsSerializer {
diff --git a/src/serializers/type_serializers/enum_.rs b/src/serializers/type_serializers/enum_.rs
index d2dc403..7e264a0 100644
--- a/src/serializers/type_serializers/enum_.rs
+++ b/src/serializers/type_serializers/enum_.rs
@@ -46,7 +46,7 @@ impl BuildSerializer for EnumSerializer {
     }
 }
 
-impl_py_gc_traverse!(EnumSerializer { serializer });
+impl_py_gc_traverse!(EnumSerializer { class, serializer });
 
 impl TypeSerializer for EnumSerializer {
     fn to_python(
diff --git a/src/validators/dataclass.rs b/src/validators/dataclass.rs
index d0d03d1..5c3c301 100644
--- a/src/validators/dataclass.rs
+++ b/src/validators/dataclass.rs
@@ -135,7 +135,10 @@ impl BuildValidator for DataclassArgsValidator {
 
 impl_py_gc_traverse!(Field { validator });
 
-impl_py_gc_traverse!(DataclassArgsValidator { fields });
+impl_py_gc_traverse!(DataclassArgsValidator {
+    fields,
+    extras_validator
+});
 
 impl Validator for DataclassArgsValidator {
     fn validate<'py>(
diff --git a/src/validators/enum_.rs b/src/validators/enum_.rs
index add0763..e66cbc2 100644
--- a/src/validators/enum_.rs
+++ b/src/validators/enum_.rs
@@ -170,7 +170,11 @@ impl<T: EnumValidateValue> Validator for EnumValidator<T> {
 #[derive(Debug, Clone)]
 pub struct PlainEnumValidator;
 
-impl_py_gc_traverse!(EnumValidator<PlainEnumValidator> { class, missing });
+impl_py_gc_traverse!(EnumValidator<PlainEnumValidator> {
+    class,
+    lookup,
+    missing
+});
 
 impl EnumValidateValue for PlainEnumValidator {
     fn validate_value<'py, I: Input<'py> + ?Sized>(
@@ -204,7 +208,11 @@ impl EnumValidateValue for PlainEnumValidator {
 #[derive(Debug, Clone)]
 pub struct IntEnumValidator;
 
-impl_py_gc_traverse!(EnumValidator<IntEnumValidator> { class, missing });
+impl_py_gc_traverse!(EnumValidator<IntEnumValidator> {
+    class,
+    lookup,
+    missing
+});
 
 impl EnumValidateValue for IntEnumValidator {
     fn validate_value<'py, I: Input<'py> + ?Sized>(
@@ -220,7 +228,11 @@ impl EnumValidateValue for IntEnumValidator {
 #[derive(Debug, Clone)]
 pub struct StrEnumValidator;
 
-impl_py_gc_traverse!(EnumValidator<StrEnumValidator> { class, missing });
+impl_py_gc_traverse!(EnumValidator<StrEnumValidator> {
+    class,
+    lookup,
+    missing
+});
 
 impl EnumValidateValue for StrEnumValidator {
     fn validate_value<'py, I: Input<'py> + ?Sized>(
@@ -236,7 +248,11 @@ impl EnumValidateValue for StrEnumValidator {
 #[derive(Debug, Clone)]
 pub struct FloatEnumValidator;
 
-impl_py_gc_traverse!(EnumValidator<FloatEnumValidator> { class, missing });
+impl_py_gc_traverse!(EnumValidator<FloatEnumValidator> {
+    class,
+    lookup,
+    missing
+});
 
 impl EnumValidateValue for FloatEnumValidator {
     fn validate_value<'py, I: Input<'py> + ?Sized>(
diff --git a/src/validators/literal.rs b/src/validators/literal.rs
index 3c990fd..992831b 100644
--- a/src/validators/literal.rs
+++ b/src/validators/literal.rs
@@ -249,6 +249,10 @@ impl<T: Debug> LiteralLookup<T> {
 impl<T: PyGcTraverse + Debug> PyGcTraverse for LiteralLookup<T> {
     fn py_gc_traverse(&self, visit: &PyVisit<'_>) -> Result<(), PyTraverseError> {
         self.expected_py_dict.py_gc_traverse(visit)?;
+        for (value, _) in self.expected_py_values.iter().flatten() {
+            visit.call(value)?;
+        }
+        self.expected_py_primitives.py_gc_traverse(visit)?;
         self.values.py_gc_traverse(visit)?;
         Ok(())
     }
diff --git a/src/validators/model_fields.rs b/src/validators/model_fields.rs
index 7297bd0..4b1f894 100644
--- a/src/validators/model_fields.rs
+++ b/src/validators/model_fields.rs
@@ -117,7 +117,8 @@ impl BuildValidator for ModelFieldsValidator {
 
 impl_py_gc_traverse!(ModelFieldsValidator {
     fields,
-    extras_validator
+    extras_validator,
+    extras_keys_validator
 });
 
 impl Validator for ModelFieldsValidator {
-- 
2.43.0


From 3afa4a2c4928ff08a04b892a078907706016c972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:42 +0000
Subject: [PATCH 69/72] fix: garbage collection sees the context of custom
 errors

---
 src/errors/types.rs            |  9 +++++++++
 src/errors/value_exception.rs  | 10 ++++++++++
 src/validators/custom_error.rs | 16 +++++++++++++++-
 src/validators/union.rs        |  7 ++++++-
 4 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/src/errors/types.rs b/src/errors/types.rs
index ade788e..739085a 100644
--- a/src/errors/types.rs
+++ b/src/errors/types.rs
@@ -6,6 +6,7 @@ use pyo3::exceptions::{PyKeyError, PyTypeError};
 use pyo3::prelude::*;
 use pyo3::sync::GILOnceCell;
 use pyo3::types::{PyDict, PyList};
+use pyo3::{PyTraverseError, PyVisit};
 
 use ahash::AHashMap;
 use num_bigint::BigInt;
@@ -118,6 +119,14 @@ macro_rules! error_types {
                 }
             }
 
+            pub(super) fn traverse_context(&self, visit: &PyVisit<'_>) -> Result<(), PyTraverseError> {
+                match self {
+                    $(
+                        Self::$item { context, .. } => visit.call(context),
+                    )+
+                }
+            }
+
             fn py_dict_update_ctx(&self, py: Python, dict: &Bound<'_, PyDict>) -> PyResult<bool> {
                 use pyo3::types::PyMapping;
                 match self {
diff --git a/src/errors/value_exception.rs b/src/errors/value_exception.rs
index a44a54f..8de34ed 100644
--- a/src/errors/value_exception.rs
+++ b/src/errors/value_exception.rs
@@ -1,8 +1,10 @@
 use pyo3::exceptions::{PyException, PyValueError};
 use pyo3::prelude::*;
 use pyo3::types::{PyDict, PyString};
+use pyo3::{PyTraverseError, PyVisit};
 
 use crate::input::InputType;
+use crate::py_gc::PyGcTraverse;
 use crate::tools::extract_i64;
 
 use super::line_error::ToErrorValue;
@@ -107,6 +109,8 @@ impl PydanticCustomError {
     }
 }
 
+impl_py_gc_traverse!(PydanticCustomError { context });
+
 impl PydanticCustomError {
     pub fn into_val_error(self, input: impl ToErrorValue) -> ValError {
         let error_type = ErrorType::CustomError {
@@ -185,6 +189,12 @@ impl PydanticKnownError {
     }
 }
 
+impl PyGcTraverse for PydanticKnownError {
+    fn py_gc_traverse(&self, visit: &PyVisit<'_>) -> Result<(), PyTraverseError> {
+        self.error_type.traverse_context(visit)
+    }
+}
+
 impl PydanticKnownError {
     pub fn into_val_error(self, input: impl ToErrorValue) -> ValError {
         ValError::new(self.error_type, input)
diff --git a/src/validators/custom_error.rs b/src/validators/custom_error.rs
index 6759f77..4c81917 100644
--- a/src/validators/custom_error.rs
+++ b/src/validators/custom_error.rs
@@ -1,11 +1,13 @@
 use pyo3::intern;
 use pyo3::prelude::*;
 use pyo3::types::PyDict;
+use pyo3::{PyTraverseError, PyVisit};
 
 use crate::build_tools::py_schema_err;
 use crate::errors::ToErrorValue;
 use crate::errors::{ErrorType, PydanticCustomError, PydanticKnownError, ValError, ValResult};
 use crate::input::Input;
+use crate::py_gc::PyGcTraverse;
 use crate::tools::SchemaDict;
 
 use super::validation_state::ValidationState;
@@ -17,6 +19,15 @@ pub enum CustomError {
     KnownError(PydanticKnownError),
 }
 
+impl PyGcTraverse for CustomError {
+    fn py_gc_traverse(&self, visit: &PyVisit<'_>) -> Result<(), PyTraverseError> {
+        match self {
+            Self::Custom(error) => error.py_gc_traverse(visit),
+            Self::KnownError(error) => error.py_gc_traverse(visit),
+        }
+    }
+}
+
 impl CustomError {
     pub fn build(
         schema: &Bound<'_, PyDict>,
@@ -85,7 +96,10 @@ impl BuildValidator for CustomErrorValidator {
     }
 }
 
-impl_py_gc_traverse!(CustomErrorValidator { validator });
+impl_py_gc_traverse!(CustomErrorValidator {
+    validator,
+    custom_error
+});
 
 impl Validator for CustomErrorValidator {
     fn validate<'py>(
diff --git a/src/validators/union.rs b/src/validators/union.rs
index 1fef722..a65edef 100644
--- a/src/validators/union.rs
+++ b/src/validators/union.rs
@@ -208,6 +208,7 @@ impl UnionValidator {
 impl PyGcTraverse for UnionValidator {
     fn py_gc_traverse(&self, visit: &PyVisit<'_>) -> Result<(), PyTraverseError> {
         self.choices.iter().try_for_each(|(v, _)| v.py_gc_traverse(visit))?;
+        self.custom_error.py_gc_traverse(visit)?;
         Ok(())
     }
 }
@@ -346,7 +347,11 @@ impl BuildValidator for TaggedUnionValidator {
     }
 }
 
-impl_py_gc_traverse!(TaggedUnionValidator { discriminator, lookup });
+impl_py_gc_traverse!(TaggedUnionValidator {
+    discriminator,
+    lookup,
+    custom_error
+});
 
 impl Validator for TaggedUnionValidator {
     fn validate<'py>(
-- 
2.43.0


From c435feab3d6a4836ff13fc3579040a862ab6ddf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:21 +0000
Subject: [PATCH 70/72] fix: garbage collection sees what is handed to
 functions of the user

---
 src/serializers/type_serializers/function.rs  | 12 ++++++------
 src/serializers/type_serializers/generator.rs |  7 ++++---
 src/validators/function.rs                    | 15 ++++++++++++---
 3 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/serializers/type_serializers/function.rs b/src/serializers/type_serializers/function.rs
index 3735c2e..2979ae4 100644
--- a/src/serializers/type_serializers/function.rs
+++ b/src/serializers/type_serializers/function.rs
@@ -461,7 +461,10 @@ impl SerializationCallable {
             exclude: exclude.map(|v| v.clone().unbind()),
         }
     }
+}
 
+#[pymethods]
+impl SerializationCallable {
     fn __traverse__(&self, visit: PyVisit<'_>) -> Result<(), PyTraverseError> {
         if let Some(include) = &self.include {
             visit.call(include)?;
@@ -488,10 +491,7 @@ impl SerializationCallable {
         self.extra_owned.fallback = None;
         self.extra_owned.context = None;
     }
-}
 
-#[pymethods]
-impl SerializationCallable {
     #[pyo3(signature = (value, index_key=None))]
     fn __call__(
         &mut self,
@@ -605,7 +605,10 @@ impl SerializationInfo {
             })
         }
     }
+}
 
+#[pymethods]
+impl SerializationInfo {
     fn __traverse__(&self, visit: PyVisit<'_>) -> Result<(), PyTraverseError> {
         if let Some(include) = &self.include {
             visit.call(include)?;
@@ -624,10 +627,7 @@ impl SerializationInfo {
         self.exclude = None;
         self.context = None;
     }
-}
 
-#[pymethods]
-impl SerializationInfo {
     fn mode_is_json(&self) -> bool {
         self._mode.is_json()
     }
diff --git a/src/serializers/type_serializers/generator.rs b/src/serializers/type_serializers/generator.rs
index 0e5050c..eacf57e 100644
--- a/src/serializers/type_serializers/generator.rs
+++ b/src/serializers/type_serializers/generator.rs
@@ -182,8 +182,12 @@ impl SerializationIterator {
             exclude: exclude.map(|v| v.clone().into()),
         }
     }
+}
 
+#[pymethods]
+impl SerializationIterator {
     fn __traverse__(&self, visit: PyVisit<'_>) -> Result<(), PyTraverseError> {
+        visit.call(&self.iterator)?;
         if let Some(include) = &self.include {
             visit.call(include)?;
         }
@@ -209,10 +213,7 @@ impl SerializationIterator {
         self.extra_owned.fallback = None;
         self.extra_owned.context = None;
     }
-}
 
-#[pymethods]
-impl SerializationIterator {
     fn __iter__(slf: PyRef<'_, Self>) -> PyRef<'_, Self> {
         slf
     }
diff --git a/src/validators/function.rs b/src/validators/function.rs
index ddb0960..3344cc8 100644
--- a/src/validators/function.rs
+++ b/src/validators/function.rs
@@ -473,6 +473,11 @@ impl AssignmentValidatorCallable {
         )
     }
 
+    fn __traverse__(&self, visit: PyVisit) -> Result<(), PyTraverseError> {
+        visit.call(&self.updated_field_value)?;
+        self.validator.py_gc_traverse(&visit)
+    }
+
     fn __repr__(&self) -> String {
         format!("AssignmentValidatorCallable({:?})", self.validator)
     }
@@ -544,22 +549,26 @@ impl ValidationInfo {
             mode: extra.input_type,
         }
     }
+}
 
+#[pymethods]
+impl ValidationInfo {
     fn __traverse__(&self, visit: PyVisit<'_>) -> Result<(), PyTraverseError> {
         visit.call(&self.config)?;
         if let Some(context) = &self.context {
             visit.call(context)?;
         }
+        if let Some(data) = &self.data {
+            visit.call(data)?;
+        }
         Ok(())
     }
 
     fn __clear__(&mut self) {
         self.context = None;
+        self.data = None;
     }
-}
 
-#[pymethods]
-impl ValidationInfo {
     fn __repr__(&self, py: Python) -> PyResult<String> {
         let context = match self.context {
             Some(ref context) => safe_repr(context.bind(py)).to_string(),
-- 
2.43.0


From b4556e3b38e9537214101d0c5ccc76edf6157f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:20 +0000
Subject: [PATCH 71/72] fix: garbage collection counts the references of a
 validator shared with a function once

---
 src/validators/generator.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/validators/generator.rs b/src/validators/generator.rs
index 5cdb2cc..75fc0d6 100644
--- a/src/validators/generator.rs
+++ b/src/validators/generator.rs
@@ -349,9 +349,14 @@ impl InternalValidator {
     }
 }
 
-impl_py_gc_traverse!(InternalValidator {
-    validator,
-    data,
-    context,
-    self_instance
-});
+impl PyGcTraverse for InternalValidator {
+    fn py_gc_traverse(&self, visit: &PyVisit<'_>) -> Result<(), PyTraverseError> {
+        // each reference may be visited once: while `validator` is shared that is done by its other owner
+        if Arc::strong_count(&self.validator) == 1 {
+            self.validator.py_gc_traverse(visit)?;
+        }
+        self.data.py_gc_traverse(visit)?;
+        self.context.py_gc_traverse(visit)?;
+        self.self_instance.py_gc_traverse(visit)
+    }
+}
-- 
2.43.0


From c74a9894857f2da167364e60bec8d9c2fbc19176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:37 +0000
Subject: [PATCH 72/72] fix: garbage collection sees the warnings kept by a
 serializer handed to functions

---
 src/serializers/errors.rs                     |  2 ++
 src/serializers/extra.rs                      | 21 ++++++++++++++++++-
 src/serializers/type_serializers/function.rs  | 12 ++---------
 src/serializers/type_serializers/generator.rs | 12 ++---------
 4 files changed, 26 insertions(+), 21 deletions(-)

diff --git a/src/serializers/errors.rs b/src/serializers/errors.rs
index d9ba856..2f6c8b2 100644
--- a/src/serializers/errors.rs
+++ b/src/serializers/errors.rs
@@ -102,6 +102,8 @@ pub struct PydanticSerializationUnexpectedValue {
     input_value: Option<PyObject>,
 }
 
+impl_py_gc_traverse!(PydanticSerializationUnexpectedValue { input_value });
+
 impl PydanticSerializationUnexpectedValue {
     pub fn new_from_msg(message: Option<String>) -> Self {
         Self {
diff --git a/src/serializers/extra.rs b/src/serializers/extra.rs
index 82c4323..531b6fe 100644
--- a/src/serializers/extra.rs
+++ b/src/serializers/extra.rs
@@ -6,13 +6,14 @@ use std::sync::Mutex;
 use pyo3::exceptions::{PyTypeError, PyUserWarning, PyValueError};
 use pyo3::prelude::*;
 use pyo3::types::{PyBool, PyString};
-use pyo3::{intern, PyTypeInfo};
+use pyo3::{intern, PyTraverseError, PyTypeInfo, PyVisit};
 
 use serde::ser::Error;
 
 use super::config::SerializationConfig;
 use super::errors::{PydanticSerializationUnexpectedValue, UNEXPECTED_TYPE_SER_MARKER};
 use super::ob_type::ObTypeLookup;
+use crate::py_gc::PyGcTraverse;
 use crate::recursion_guard::ContainsRecursionState;
 use crate::recursion_guard::RecursionError;
 use crate::recursion_guard::RecursionGuard;
@@ -247,6 +248,15 @@ pub(crate) struct ExtraOwned {
     pub context: Option<PyObject>,
 }
 
+impl PyGcTraverse for ExtraOwned {
+    fn py_gc_traverse(&self, visit: &PyVisit<'_>) -> Result<(), PyTraverseError> {
+        self.warnings.py_gc_traverse(visit)?;
+        self.model.py_gc_traverse(visit)?;
+        self.fallback.py_gc_traverse(visit)?;
+        self.context.py_gc_traverse(visit)
+    }
+}
+
 impl ExtraOwned {
     pub fn new(extra: &Extra) -> Self {
         Self {
@@ -386,6 +396,15 @@ pub(crate) struct CollectWarnings {
     warnings: Mutex<Vec<PydanticSerializationUnexpectedValue>>,
 }
 
+impl PyGcTraverse for CollectWarnings {
+    fn py_gc_traverse(&self, visit: &PyVisit<'_>) -> Result<(), PyTraverseError> {
+        match self.warnings.try_lock() {
+            Ok(warnings) => warnings.py_gc_traverse(visit),
+            Err(_) => Ok(()),
+        }
+    }
+}
+
 impl Clone for CollectWarnings {
     fn clone(&self) -> Self {
         Self {
diff --git a/src/serializers/type_serializers/function.rs b/src/serializers/type_serializers/function.rs
index 2979ae4..4ae717a 100644
--- a/src/serializers/type_serializers/function.rs
+++ b/src/serializers/type_serializers/function.rs
@@ -11,6 +11,7 @@ use pyo3::PyTraverseError;
 use pyo3::types::PyString;
 
 use crate::definitions::DefinitionsBuilder;
+use crate::py_gc::PyGcTraverse;
 use crate::tools::SchemaDict;
 use crate::tools::{function_name, py_err, py_error_type};
 use crate::{PydanticOmit, PydanticSerializationUnexpectedValue};
@@ -472,16 +473,7 @@ impl SerializationCallable {
         if let Some(exclude) = &self.exclude {
             visit.call(exclude)?;
         }
-        if let Some(model) = &self.extra_owned.model {
-            visit.call(model)?;
-        }
-        if let Some(fallback) = &self.extra_owned.fallback {
-            visit.call(fallback)?;
-        }
-        if let Some(context) = &self.extra_owned.context {
-            visit.call(context)?;
-        }
-        Ok(())
+        self.extra_owned.py_gc_traverse(&visit)
     }
 
     fn __clear__(&mut self) {
diff --git a/src/serializers/type_serializers/generator.rs b/src/serializers/type_serializers/generator.rs
index eacf57e..f493560 100644
--- a/src/serializers/type_serializers/generator.rs
+++ b/src/serializers/type_serializers/generator.rs
@@ -11,6 +11,7 @@ use pyo3::PyTraverseError;
 use serde::ser::SerializeSeq;
 
 use crate::definitions::DefinitionsBuilder;
+use crate::py_gc::PyGcTraverse;
 use crate::tools::SchemaDict;
 
 use super::any::AnySerializer;
@@ -194,16 +195,7 @@ impl SerializationIterator {
         if let Some(exclude) = &self.exclude {
             visit.call(exclude)?;
         }
-        if let Some(model) = &self.extra_owned.model {
-            visit.call(model)?;
-        }
-        if let Some(fallback) = &self.extra_owned.fallback {
-            visit.call(fallback)?;
-        }
-        if let Some(context) = &self.extra_owned.context {
-            visit.call(context)?;
-        }
-        Ok(())
+        self.extra_owned.py_gc_traverse(&visit)
     }
 
     fn __clear__(&mut self) {
-- 
2.43.0

