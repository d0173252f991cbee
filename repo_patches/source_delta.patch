From 616d5dbfb885f57b82d9fc1a967a829fefc9aacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:08 +0000
Subject: [PATCH 01/15] fix: timers in zero-initialised memory are not running

The memory of a function block starts out zeroed, but an all-zero
Option<Instant> is Some: TON reported Q on the first call and TP never
gave its first pulse. Keep an explicit running flag.
---
 src/timers.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/timers.rs b/src/timers.rs
index 1661c8d..328238e 100644
--- a/src/timers.rs
+++ b/src/timers.rs
@@ -20,6 +20,9 @@ pub struct TimerParams {
     output: bool,
     elapsed_time: Time,
     input_edge: Signal,
+    // The memory of an instance starts out zeroed, which `Option<Instant>` does not define as `None`.
+    // `start_time` is therefore only valid if `running` is set.
+    running: bool,
     start_time: Option<Instant>,
 }
 
@@ -28,16 +31,18 @@ impl TimerParams {
     /// It does not take into consideration the preset/range for the timer
     /// Only if a start time has been set.
     fn is_running(&self) -> bool {
-        self.start_time.is_some()
+        self.running
     }
 
     fn start(&mut self) {
         self.start_time = Some(Instant::now());
+        self.running = true;
         self.set_elapsed_time(0);
     }
 
     fn reset(&mut self) {
         self.start_time = None;
+        self.running = false;
         self.set_elapsed_time(0);
     }
 
@@ -63,7 +68,9 @@ impl TimerParams {
     }
 
     fn get_run_time(&self) -> Option<Duration> {
-        self.start_time.map(|it| it.elapsed())
+        self.start_time
+            .filter(|_| self.running)
+            .map(|it| it.elapsed())
     }
 
     fn set_output(&mut self, value: bool) {
-- 
2.43.0


From 44f7a83e3beb0a67e86b737e09a3e698ba392703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:20 +0000
Subject: [PATCH 02/15] fix: TP accepts calls on an idle instance and every
 rising edge

An idle TP called with IN false panicked, a pulse whose input fell while
it was running was never reset, and a rising edge seen by the call that
finds the pulse expired was lost.
---
 src/timers.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/timers.rs b/src/timers.rs
index 328238e..c98a1a2 100644
--- a/src/timers.rs
+++ b/src/timers.rs
@@ -89,23 +89,23 @@ impl TimerParams {
 #[allow(non_snake_case)]
 #[no_mangle]
 pub extern "C" fn TP(timer: &mut TimerParams) {
+    let rising_edge = timer.input_rising_edge();
     //If timer is active (start time set)
-    let output = if timer.is_running() {
+    if timer.is_running() {
         timer.update_elapsed_time();
-        // If time elapsed within range
-        if timer.is_in_preset_range() {
-            true
-        } else {
-            if timer.input_falling_edge() {
-                timer.reset()
-            }
-            false
-        }
-    } else if timer.input_rising_edge() {
+    }
+    // If time elapsed within range
+    let output = if timer.is_in_preset_range() {
+        true
+    } else if rising_edge {
         timer.start();
         true
     } else {
-        unreachable!("We should not get here, if we do write the failing test for it.")
+        //The pulse is over, keep the elapsed time as long as the input is true
+        if !timer.input {
+            timer.reset()
+        }
+        false
     };
     timer.set_output(output);
     timer.input_edge.set(timer.input);
-- 
2.43.0


From f6b0fae6969c8b984914d21f63c51216125a998e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:12 +0000
Subject: [PATCH 03/15] fix: CONCAT without arguments terminates its result

The destination was left untouched, so the result was whatever it held
before.
---
 src/string_functions.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/string_functions.rs b/src/string_functions.rs
index dfbb925..22e7ecb 100644
--- a/src/string_functions.rs
+++ b/src/string_functions.rs
@@ -715,6 +715,8 @@ pub unsafe extern "C" fn CONCAT_EXT__STRING(
         EncodedCharsIter::decode(*argv).encode(&mut dest);
         argv = argv.add(1);
     }
+    // without any arguments nothing has been terminated yet
+    *dest = 0;
 
     0
 }
@@ -763,6 +765,8 @@ pub unsafe extern "C" fn CONCAT_EXT__WSTRING(
         EncodedCharsIter::decode(*argv).encode(&mut dest);
         argv = argv.add(1);
     }
+    // without any arguments nothing has been terminated yet
+    *dest = 0;
 
     0
 }
-- 
2.43.0


From 12b7375b2de2202ed8ac2f9c95074d9799677745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:12 +0000
Subject: [PATCH 04/15] fix: DELETE and REPLACE refuse negative counts in
 optimised builds

The bounds check added the count as usize, which wraps around when
overflow checks are off: DELETE('abc', -1, 2) gave 'aabc'.
---
 src/string_functions.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/string_functions.rs b/src/string_functions.rs
index 22e7ecb..a9e53b2 100644
--- a/src/string_functions.rs
+++ b/src/string_functions.rs
@@ -515,7 +515,7 @@ pub unsafe extern "C" fn DELETE_EXT__STRING(
     // correct for 0-indexing
     let pos = pos as usize - 1;
     let ndel = num_chars_to_delete as usize;
-    if ndel + pos > nchars {
+    if num_chars_to_delete < 0 || ndel + pos > nchars {
         panic!(
             r#"Cannot delete {} characters starting from index {}.
             Index out of bounds.
@@ -558,7 +558,7 @@ pub unsafe extern "C" fn DELETE_EXT__WSTRING(
     // correct for 0-indexing
     let pos = pos as usize - 1;
     let ndel = num_chars_to_delete as usize;
-    if ndel + pos > nchars {
+    if num_chars_to_delete < 0 || ndel + pos > nchars {
         panic!(
             r#"Cannot delete {} characters starting from index {}.
             Index out of bounds.
@@ -604,12 +604,12 @@ pub unsafe extern "C" fn REPLACE_EXT__STRING(
     let pos = (pos - 1) as usize;
     let nreplace = num_chars_to_replace as usize;
 
-    if nreplace + pos > nbase {
+    if num_chars_to_replace < 0 || nreplace + pos > nbase {
         panic!(
             r#"Cannot replace {} characters starting from index {}.
             Index out of bounds.
             "#,
-            nreplace,
+            num_chars_to_replace,
             pos + 1
         )
     }
@@ -651,12 +651,12 @@ pub unsafe extern "C" fn REPLACE_EXT__WSTRING(
     // correct for 0-indexing
     let pos = (pos - 1) as usize;
     let nreplace = num_chars_to_replace as usize;
-    if nreplace + pos > nbase {
+    if num_chars_to_replace < 0 || nreplace + pos > nbase {
         panic!(
             r#"Cannot replace {} characters starting from index {}.
             Index out of bounds.
             "#,
-            nreplace,
+            num_chars_to_replace,
             pos + 1
         )
     }
-- 
2.43.0


From 012fcf9c406645ac680a1cd7546f7fb7928838d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:12 +0000
Subject: [PATCH 05/15] fix: STRING_TO_WSTRING terminates its result

---
 src/string_conversion.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/string_conversion.rs b/src/string_conversion.rs
index 2b18a2e..3a002fd 100644
--- a/src/string_conversion.rs
+++ b/src/string_conversion.rs
@@ -39,6 +39,7 @@ pub unsafe extern "C" fn STRING_TO_WSTRING_EXT(src: *const u8, dest: *mut u16) -
             dest = dest.add(1);
         }
     }
+    *dest = 0;
 
     0
 }
-- 
2.43.0


From a2e5fd43ae6d50503f5724b3e03604674a71bfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:12 +0000
Subject: [PATCH 06/15] fix: SHL and SHR by the width or more give 0

The native shift operators panic in debug builds and take the amount
modulo the width in release builds.
---
 src/bit_shift_functions.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/bit_shift_functions.rs b/src/bit_shift_functions.rs
index 48510fc..e34bd39 100644
--- a/src/bit_shift_functions.rs
+++ b/src/bit_shift_functions.rs
@@ -4,56 +4,56 @@
 #[no_mangle]
 /// Shift left operation on bytes
 pub fn SHL__BYTE(input: u8, n: u32) -> u8 {
-    input << n
+    input.checked_shl(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift left operation on word
 pub fn SHL__WORD(input: u16, n: u32) -> u16 {
-    input << n
+    input.checked_shl(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift left operation on dword
 pub fn SHL__DWORD(input: u32, n: u32) -> u32 {
-    input << n
+    input.checked_shl(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift left operation on lword
 pub fn SHL__LWORD(input: u64, n: u32) -> u64 {
-    input << n
+    input.checked_shl(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift right operation on bytes
 pub fn SHR__BYTE(input: u8, n: u32) -> u8 {
-    input >> n
+    input.checked_shr(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift right operation on word
 pub fn SHR__WORD(input: u16, n: u32) -> u16 {
-    input >> n
+    input.checked_shr(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift right operation on dword
 pub fn SHR__DWORD(input: u32, n: u32) -> u32 {
-    input >> n
+    input.checked_shr(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift right operation on lword
 pub fn SHR__LWORD(input: u64, n: u32) -> u64 {
-    input >> n
+    input.checked_shr(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
-- 
2.43.0


From 196d6d0b7afe1e2a12d99f5a26fba417bef0344b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:12 +0000
Subject: [PATCH 07/15] fix: CONCAT_DATE and CONCAT_TOD do not truncate 64-bit
 parts

CONCAT_TOD of hour 4294967296 was accepted as hour 0.
---
 src/date_time_extra_functions.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/date_time_extra_functions.rs b/src/date_time_extra_functions.rs
index 2fe83b9..26013d4 100644
--- a/src/date_time_extra_functions.rs
+++ b/src/date_time_extra_functions.rs
@@ -60,7 +60,11 @@ pub extern "C" fn CONCAT_DATE__UDINT(in1: u32, in2: u32, in3: u32) -> i64 {
 #[allow(non_snake_case)]
 #[no_mangle]
 pub extern "C" fn CONCAT_DATE__LINT(in1: i64, in2: i64, in3: i64) -> i64 {
-    concat_date(in1 as i32, in2 as u32, in3 as u32)
+    concat_date(
+        in1.try_into().expect("Year out of range"),
+        in2.try_into().expect("Month out of range"),
+        in3.try_into().expect("Day out of range"),
+    )
 }
 
 /// .
@@ -69,7 +73,11 @@ pub extern "C" fn CONCAT_DATE__LINT(in1: i64, in2: i64, in3: i64) -> i64 {
 #[allow(non_snake_case)]
 #[no_mangle]
 pub extern "C" fn CONCAT_DATE__ULINT(in1: u64, in2: u64, in3: u64) -> i64 {
-    concat_date(in1 as i32, in2 as u32, in3 as u32)
+    concat_date(
+        in1.try_into().expect("Year out of range"),
+        in2.try_into().expect("Month out of range"),
+        in3.try_into().expect("Day out of range"),
+    )
 }
 
 /// .
@@ -144,7 +152,12 @@ pub extern "C" fn CONCAT_TOD__UDINT(in1: u32, in2: u32, in3: u32, in4: u32) -> i
 #[allow(non_snake_case)]
 #[no_mangle]
 pub extern "C" fn CONCAT_TOD__LINT(in1: i64, in2: i64, in3: i64, in4: i64) -> i64 {
-    concat_tod(in1 as u32, in2 as u32, in3 as u32, in4 as u32)
+    concat_tod(
+        in1.try_into().expect("Hour out of range"),
+        in2.try_into().expect("Minute out of range"),
+        in3.try_into().expect("Second out of range"),
+        in4.try_into().expect("Millisecond out of range"),
+    )
 }
 
 /// .
@@ -153,7 +166,12 @@ pub extern "C" fn CONCAT_TOD__LINT(in1: i64, in2: i64, in3: i64, in4: i64) -> i6
 #[allow(non_snake_case)]
 #[no_mangle]
 pub extern "C" fn CONCAT_TOD__ULINT(in1: u64, in2: u64, in3: u64, in4: u64) -> i64 {
-    concat_tod(in1 as u32, in2 as u32, in3 as u32, in4 as u32)
+    concat_tod(
+        in1.try_into().expect("Hour out of range"),
+        in2.try_into().expect("Minute out of range"),
+        in3.try_into().expect("Second out of range"),
+        in4.try_into().expect("Millisecond out of range"),
+    )
 }
 
 /// .
-- 
2.43.0


From d5e9b6569d9b7b4abd2102390f201993283f1e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:12 +0000
Subject: [PATCH 08/15] fix: CONCAT_TOD refuses more than 999 milliseconds

Second 59 with 1000..1999 milliseconds was taken for a leap second.
---
 src/date_time_extra_functions.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/date_time_extra_functions.rs b/src/date_time_extra_functions.rs
index 26013d4..17ad3ea 100644
--- a/src/date_time_extra_functions.rs
+++ b/src/date_time_extra_functions.rs
@@ -181,6 +181,8 @@ pub extern "C" fn CONCAT_TOD__ULINT(in1: u64, in2: u64, in3: u64, in4: u64) -> i
 #[no_mangle]
 pub extern "C" fn concat_tod(in1: u32, in2: u32, in3: u32, in4: u32) -> i64 {
     let dt = NaiveDate::from_ymd_opt(1970, 1, 1)
+        // milliseconds from 1000 on would be accepted as leap second
+        .filter(|_| in4 < 1000)
         .and_then(|date| date.and_hms_milli_opt(in1, in2, in3, in4))
         .expect("Invalid parameters, cannot create TOD");
     dt.timestamp_nanos()
-- 
2.43.0


From 50aa7f950c780630ef4d36ec525636ab9f62f519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:12 +0000
Subject: [PATCH 09/15] fix: x_TO_STRING conversions terminate their result

Digits of the previous contents of the destination were left behind the
text unless the destination happened to be zeroed.
---
 src/extra_functions.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/extra_functions.rs b/src/extra_functions.rs
index 441fe5c..bb3c01f 100644
--- a/src/extra_functions.rs
+++ b/src/extra_functions.rs
@@ -24,7 +24,7 @@ const DEFAULT_STRING_LEN: usize = 81;
 pub unsafe extern "C" fn BYTE_TO_STRING_EXT(input: u8, dest: *mut u8) -> i32 {
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
 
-    write!(&mut *buf, "{input}").unwrap();
+    write!(&mut *buf, "{input}\0").unwrap();
 
     0
 }
@@ -36,7 +36,7 @@ pub unsafe extern "C" fn BYTE_TO_STRING_EXT(input: u8, dest: *mut u8) -> i32 {
 pub unsafe extern "C" fn LWORD_TO_STRING_EXT(input: u64, dest: *mut u8) -> i32 {
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
 
-    write!(&mut *buf, "{input}").unwrap();
+    write!(&mut *buf, "{input}\0").unwrap();
 
     0
 }
@@ -47,7 +47,7 @@ pub unsafe extern "C" fn LWORD_TO_STRING_EXT(input: u64, dest: *mut u8) -> i32 {
 #[no_mangle]
 pub unsafe extern "C" fn LINT_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
-    write!(&mut *buf, "{input}").unwrap();
+    write!(&mut *buf, "{input}\0").unwrap();
 
     0
 }
@@ -60,9 +60,9 @@ pub unsafe extern "C" fn LREAL_TO_STRING_EXT(input: f64, dest: *mut u8) -> i32 {
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
     // double: 52 bits are used for the mantissa (about 16 decimal digits)
     if input.floor() < 1e14 {
-        write!(&mut *buf, "{input:.6}").unwrap()
+        write!(&mut *buf, "{input:.6}\0").unwrap()
     } else {
-        write!(&mut *buf, "{input:.6e}").unwrap()
+        write!(&mut *buf, "{input:.6e}\0").unwrap()
     }
 
     0
@@ -78,9 +78,9 @@ pub unsafe extern "C" fn REAL_TO_STRING_EXT(input: f64, dest: *mut u8) -> i32 {
 
     // TODO: discuss when scientific notation should be displayed
     if input.floor() < 1e6 {
-        write!(&mut *buf, "{input:.6}").unwrap()
+        write!(&mut *buf, "{input:.6}\0").unwrap()
     } else {
-        write!(&mut *buf, "{input:.6e}").unwrap()
+        write!(&mut *buf, "{input:.6e}\0").unwrap()
     }
 
     0
@@ -218,7 +218,7 @@ pub unsafe extern "C" fn DT_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {
     let time = datetime.time().to_string();
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
 
-    write!(&mut *buf, "{date}-{time}").unwrap();
+    write!(&mut *buf, "{date}-{time}\0").unwrap();
 
     0
 }
@@ -232,7 +232,7 @@ pub unsafe extern "C" fn DATE_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {
     let date = datetime.to_string();
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
 
-    write!(&mut *buf, "{date}").unwrap();
+    write!(&mut *buf, "{date}\0").unwrap();
 
     0
 }
@@ -246,7 +246,7 @@ pub unsafe extern "C" fn TOD_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {
     let time = datetime.time().to_string();
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
 
-    write!(&mut *buf, "{time}").unwrap();
+    write!(&mut *buf, "{time}\0").unwrap();
 
     0
 }
-- 
2.43.0


From 1ae08bc8074b1a0c9f903b96e64b41f5cd6632ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:12 +0000
Subject: [PATCH 10/15] fix: large negative reals are written in scientific
 notation

The threshold ignored negative numbers, whose fixed notation overflowed
the 81 byte string and panicked.
---
 src/extra_functions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extra_functions.rs b/src/extra_functions.rs
index bb3c01f..bacdbed 100644
--- a/src/extra_functions.rs
+++ b/src/extra_functions.rs
@@ -59,7 +59,7 @@ pub unsafe extern "C" fn LINT_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {
 pub unsafe extern "C" fn LREAL_TO_STRING_EXT(input: f64, dest: *mut u8) -> i32 {
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
     // double: 52 bits are used for the mantissa (about 16 decimal digits)
-    if input.floor() < 1e14 {
+    if input.abs().floor() < 1e14 {
         write!(&mut *buf, "{input:.6}\0").unwrap()
     } else {
         write!(&mut *buf, "{input:.6e}\0").unwrap()
@@ -77,7 +77,7 @@ pub unsafe extern "C" fn REAL_TO_STRING_EXT(input: f64, dest: *mut u8) -> i32 {
     // float: 23 bits are used for the mantissa (about 7 decimal digits)
 
     // TODO: discuss when scientific notation should be displayed
-    if input.floor() < 1e6 {
+    if input.abs().floor() < 1e6 {
         write!(&mut *buf, "{input:.6}\0").unwrap()
     } else {
         write!(&mut *buf, "{input:.6e}\0").unwrap()
-- 
2.43.0


From b6b24a2d63d2e1522038de42ac7cc80989e997b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:16 +0000
Subject: [PATCH 11/15] fix: TIME_TO_STRING writes zero and negative durations
 and terminates

Negative durations were written with days taken from a truncated cast
and clock fields counted from the wrong end, zero was not written at
all, and the text ended wherever the previous contents had a zero byte.
---
 src/extra_functions.rs | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/extra_functions.rs b/src/extra_functions.rs
index bacdbed..397e80d 100644
--- a/src/extra_functions.rs
+++ b/src/extra_functions.rs
@@ -172,30 +172,32 @@ pub extern "C" fn TIME() -> i64 {
 #[allow(non_snake_case)]
 #[no_mangle]
 pub unsafe extern "C" fn TIME_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {
-    let mut dest = dest;
-    let literals = parse_timestamp(input);
-    literals.iter().filter(|&it| it.0 != 0).for_each(|it| {
-        let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
-        write!(&mut *buf, "{}{}", it.0, it.1).unwrap();
-        let idx = buf.iter().position(|&c| c == 0).unwrap();
-        dest = dest.add(idx);
-    });
+    let sign = if input < 0 { "-" } else { "" };
+    let mut literals: String = parse_timestamp(input.unsigned_abs())
+        .iter()
+        .filter(|&it| it.0 != 0)
+        .map(|it| format!("{}{}", it.0, it.1))
+        .collect();
+    if literals.is_empty() {
+        literals.push_str("0s");
+    }
+    let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
+
+    write!(&mut *buf, "{sign}{literals}\0").unwrap();
 
     0
 }
 
-fn parse_timestamp<'a>(timestamp_nanos: i64) -> [(u32, &'a str); 7] {
-    let datetime = chrono::Utc.timestamp_nanos(timestamp_nanos);
-    let (nanos, micros, millis, seconds, minutes, hours) = (
-        datetime.timestamp_subsec_nanos() % 1000,
-        datetime.timestamp_subsec_micros() % 1000,
-        datetime.timestamp_subsec_millis(),
-        datetime.second(),
-        datetime.minute(),
-        datetime.hour(),
+fn parse_timestamp<'a>(timestamp_nanos: u64) -> [(u64, &'a str); 7] {
+    let (nanos, micros, millis, seconds, minutes, hours, days) = (
+        timestamp_nanos % 1000,
+        timestamp_nanos / 1000 % 1000,
+        timestamp_nanos / 1_000_000 % 1000,
+        timestamp_nanos / 1_000_000_000 % 60,
+        timestamp_nanos / (60 * 1_000_000_000) % 60,
+        timestamp_nanos / (3600 * 1_000_000_000) % 24,
+        timestamp_nanos / (24 * 3600 * 1_000_000_000),
     );
-    let nanos_per_day = 1e9 as i64 * 3600 * 24;
-    let days = (timestamp_nanos / nanos_per_day) as u32;
 
     [
         (days, "d"),
-- 
2.43.0


From ce44a165a84a0af9f30ff3ed40dc6fc2d1036160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:21 +0000
Subject: [PATCH 12/15] fix: SPLIT_LDT specialisations are implemented in
 structured text, not external

---
 iec61131-st/date_time_extra_functions.st | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/iec61131-st/date_time_extra_functions.st b/iec61131-st/date_time_extra_functions.st
index bc28622..da876c3 100644
--- a/iec61131-st/date_time_extra_functions.st
+++ b/iec61131-st/date_time_extra_functions.st
@@ -796,7 +796,6 @@ END_VAR
 END_FUNCTION
 
 (* Specialized implementation of SPLIT_LDT for INT *)
-{external}
 FUNCTION SPLIT_LDT__INT : INT
 VAR_INPUT
 	in : LDT;
@@ -814,7 +813,6 @@ END_VAR
 END_FUNCTION
 
 (* Specialized implementation of SPLIT_LDT for UINT *)
-{external}
 FUNCTION SPLIT_LDT__UINT : INT
 VAR_INPUT
 	in : LDT;
@@ -832,7 +830,6 @@ END_VAR
 END_FUNCTION
 
 (* Specialized implementation of SPLIT_LDT for DINT *)
-{external}
 FUNCTION SPLIT_LDT__DINT : INT
 VAR_INPUT
 	in : LDT;
@@ -850,7 +847,6 @@ END_VAR
 END_FUNCTION
 
 (* Specialized implementation of SPLIT_LDT for UDINT *)
-{external}
 FUNCTION SPLIT_LDT__UDINT : INT
 VAR_INPUT
 	in : LDT;
@@ -868,7 +864,6 @@ END_VAR
 END_FUNCTION
 
 (* Specialized implementation of SPLIT_LDT for LINT *)
-{external}
 FUNCTION SPLIT_LDT__LINT : INT
 VAR_INPUT
 	in : LDT;
@@ -886,7 +881,6 @@ END_VAR
 END_FUNCTION
 
 (* Specialized implementation of SPLIT_LDT for ULINT *)
-{external}
 FUNCTION SPLIT_LDT__ULINT : INT
 VAR_INPUT
 	in : LDT;
-- 
2.43.0


From f8add32474994b29a2ca4242a4551f70a0a82fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:28 +0000
Subject: [PATCH 13/15] fix: WSTRING_TO_DINT reads its text as DINT instead of
 cutting a LINT down

---
 iec61131-st/extra_functions.st | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iec61131-st/extra_functions.st b/iec61131-st/extra_functions.st
index d87365d..ea27a93 100644
--- a/iec61131-st/extra_functions.st
+++ b/iec61131-st/extra_functions.st
@@ -679,7 +679,7 @@ VAR_TEMP
     STR : STRING;
 END_VAR
     WSTRING_TO_STRING_EXT(IN, STR);
-    WSTRING_TO_DINT := STRING_TO_LINT(STR);
+    WSTRING_TO_DINT := STRING_TO_DINT(STR);
 END_FUNCTION
 
 (******************************************************************************
-- 
2.43.0


From b403294272cf36682f2d47cfcb82285b8bfdd66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:15 +0000
Subject: [PATCH 14/15] fix: the text conversions from WSTRING overflow their
 temporary string

---
 iec61131-st/extra_functions.st | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/iec61131-st/extra_functions.st b/iec61131-st/extra_functions.st
index ea27a93..8cf55f7 100644
--- a/iec61131-st/extra_functions.st
+++ b/iec61131-st/extra_functions.st
@@ -496,7 +496,7 @@ VAR_INPUT {ref}
     IN : WSTRING;
 END_VAR
 VAR_TEMP
-    STR : STRING;
+    STR : STRING[__STRING_LENGTH];
 END_VAR
     WSTRING_TO_STRING_EXT(IN, STR);
     WSTRING_TO_LINT := STRING_TO_LINT(STR);
@@ -676,7 +676,7 @@ VAR_INPUT {ref}
     IN : WSTRING;
 END_VAR
 VAR_TEMP
-    STR : STRING;
+    STR : STRING[__STRING_LENGTH];
 END_VAR
     WSTRING_TO_STRING_EXT(IN, STR);
     WSTRING_TO_DINT := STRING_TO_DINT(STR);
@@ -716,7 +716,7 @@ VAR_INPUT {ref}
     IN : WSTRING;
 END_VAR
 VAR_TEMP
-    STR : STRING;
+    STR : STRING[__STRING_LENGTH];
 END_VAR
     WSTRING_TO_STRING_EXT(IN, STR);
     WSTRING_TO_LREAL := STRING_TO_LREAL(STR);
@@ -732,7 +732,7 @@ VAR_INPUT {ref}
     IN : WSTRING;
 END_VAR
 VAR_TEMP
-    STR : STRING;
+    STR : STRING[__STRING_LENGTH];
 END_VAR
     WSTRING_TO_STRING_EXT(IN, STR);
     WSTRING_TO_REAL := STRING_TO_REAL(STR);
-- 
2.43.0


From 331b523c66cffa0b17ce9e758442ddadd83fa7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:23 +0000
Subject: [PATCH 15/15] fix: CHAR_TO_STRING and WCHAR_TO_WSTRING read a whole
 string from the address of one character

---
 iec61131-st/string_conversion.st | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/iec61131-st/string_conversion.st b/iec61131-st/string_conversion.st
index 31b1919..9d99bda 100644
--- a/iec61131-st/string_conversion.st
+++ b/iec61131-st/string_conversion.st
@@ -85,10 +85,11 @@ VAR_INPUT
 	in : WCHAR;
 END_VAR
 VAR
-	ptr : REF_TO WSTRING;
+	ptr : REF_TO WCHAR;
 END_VAR
-	ptr := &in;
-	WCHAR_TO_WSTRING := ptr^;
+	WCHAR_TO_WSTRING := " "; // one character and the terminator
+	ptr := &WCHAR_TO_WSTRING;
+	ptr^ := in;
 END_FUNCTION
 
 (********************
@@ -113,10 +114,11 @@ VAR_INPUT
 	in : CHAR;
 END_VAR
 VAR
-	ptr : REF_TO STRING;
+	ptr : REF_TO CHAR;
 END_VAR
-	ptr := &in;
-	CHAR_TO_STRING := ptr^;
+	CHAR_TO_STRING := ' '; // one character and the terminator
+	ptr := &CHAR_TO_STRING;
+	ptr^ := in;
 END_FUNCTION
 
 (********************
-- 
2.43.0

