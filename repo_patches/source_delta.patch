From 1727ae581e354d3036e09d92c85c5a85d6d88ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:11 +0000
Subject: [PATCH 01/27] fix: reject '-' in MetricName::try_from_str

The documented grammar (and the const constructor) is [a-zA-Z_:][a-zA-Z0-9_:]*.
---
 core/src/metric/name.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/metric/name.rs b/core/src/metric/name.rs
index 8a4aa4c..92d10c3 100644
--- a/core/src/metric/name.rs
+++ b/core/src/metric/name.rs
@@ -83,7 +83,7 @@ fn try_assert_metric_name(value: &str) -> Result<(), InvalidMetricName> {
     }
 
     value.bytes().try_fold((), |(), b| match b {
-        b'0'..=b'9' | b'A'..=b'Z' | b'a'..=b'z' | b'-' | b'_' | b':' => Ok(()),
+        b'0'..=b'9' | b'A'..=b'Z' | b'a'..=b'z' | b'_' | b':' => Ok(()),
         _ => Err(InvalidMetricName::InvalidChars),
     })?;
 
-- 
2.43.0


From 74eceaf872c03fd9a59b8fe20f1fd3ece16ede23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:27 +0000
Subject: [PATCH 02/27] fix: return writer errors that happen while writing
 labels

LabelGroup::visit_values does not propagate the visitor output, so an
io::Error raised while writing a label was dropped and the collection
reported success with labels missing from the output.
---
 core/src/text.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/core/src/text.rs b/core/src/text.rs
index 8d4aa75..663e09a 100644
--- a/core/src/text.rs
+++ b/core/src/text.rs
@@ -155,10 +155,12 @@ impl<W: Write> TextEncoder<W> {
         struct GroupVisitor<'a, W> {
             first: bool,
             writer: &'a mut W,
+            // label groups do not propagate the output of `write_value`,
+            // so the first error is kept here.
+            result: Result<(), std::io::Error>,
         }
-        impl<W: Write> LabelGroupVisitor for GroupVisitor<'_, W> {
-            type Output = Result<(), std::io::Error>;
-            fn write_value(
+        impl<W: Write> GroupVisitor<'_, W> {
+            fn try_write_value(
                 &mut self,
                 name: &LabelName,
                 x: &impl LabelValue,
@@ -175,6 +177,14 @@ impl<W: Write> TextEncoder<W> {
                 })
             }
         }
+        impl<W: Write> LabelGroupVisitor for GroupVisitor<'_, W> {
+            type Output = ();
+            fn write_value(&mut self, name: &LabelName, x: &impl LabelValue) {
+                if self.result.is_ok() {
+                    self.result = self.try_write_value(name, x);
+                }
+            }
+        }
 
         self.state = State::Metrics;
         name.encode_utf8(&mut self.writer)?;
@@ -182,8 +192,10 @@ impl<W: Write> TextEncoder<W> {
         let mut visitor = GroupVisitor {
             first: true,
             writer: &mut self.writer,
+            result: Ok(()),
         };
         labels.visit_values(&mut visitor);
+        visitor.result?;
         if !visitor.first {
             self.writer.write_all(b"}")?;
         }
-- 
2.43.0


From aa92d457110223b8e28b60fd508aaf9b453d7a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:49 +0000
Subject: [PATCH 03/27] fix: escape backslashes and line feeds in HELP text

The text format requires it; a line feed in the help used to end the
comment and put the rest of the text on a line of its own.
---
 core/src/text.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/core/src/text.rs b/core/src/text.rs
index 663e09a..e0c1cfc 100644
--- a/core/src/text.rs
+++ b/core/src/text.rs
@@ -6,7 +6,7 @@ use std::{
 };
 
 use bytes::{BufMut, Bytes, BytesMut};
-use memchr::memchr3_iter;
+use memchr::{memchr2_iter, memchr3_iter};
 
 use crate::{
     label::{LabelGroup, LabelGroupVisitor, LabelName, LabelValue, LabelVisitor},
@@ -65,7 +65,7 @@ impl<W: Write> Encoding for TextEncoder<W> {
         self.writer.write_all(b"# HELP ")?;
         name.encode_utf8(&mut self.writer)?;
         self.writer.write_all(b" ")?;
-        self.writer.write_all(help.as_bytes())?;
+        write_help_str(help, &mut self.writer)?;
         self.writer.write_all(b"\n")?;
         Ok(())
     }
@@ -413,6 +413,21 @@ impl<T: MetricEncoding<TextEncoder<BytesWriter>>> MetricEncoding<BufferedTextEnc
     }
 }
 
+// help text escapes only the backslash and the line feed
+fn write_help_str(s: &str, b: &mut impl Write) -> io::Result<()> {
+    let mut i = 0;
+    for j in memchr2_iter(b'\\', b'\n', s.as_bytes()) {
+        b.write_all(&s.as_bytes()[i..j])?;
+        match s.as_bytes()[j] {
+            b'\\' => b.write_all(b"\\\\")?,
+            b'\n' => b.write_all(b"\\n")?,
+            _ => unreachable!(),
+        }
+        i = j + 1;
+    }
+    b.write_all(&s.as_bytes()[i..])
+}
+
 pub(crate) fn write_label_str_value(s: &str, b: &mut impl Write) -> io::Result<()> {
     let mut i = 0;
     for j in memchr3_iter(b'\\', b'"', b'\n', s.as_bytes()) {
-- 
2.43.0


From 0a832c4fafde584fde04e2b97bcbdf7f0e480b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:50 +0000
Subject: [PATCH 04/27] fix: export counters and histogram counts above
 i64::MAX as unsigned

They were cast to i64 and came out negative in the text format.
---
 core/src/metric/group.rs |  1 +
 core/src/text.rs         | 11 +++++++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/core/src/metric/group.rs b/core/src/metric/group.rs
index 7d8a26c..9d2d860 100644
--- a/core/src/metric/group.rs
+++ b/core/src/metric/group.rs
@@ -13,6 +13,7 @@ use super::{
 #[derive(Clone, Copy, Debug)]
 pub enum MetricValue {
     Int(i64),
+    Uint(u64),
     Float(f64),
 }
 
diff --git a/core/src/text.rs b/core/src/text.rs
index e0c1cfc..b5dd223 100644
--- a/core/src/text.rs
+++ b/core/src/text.rs
@@ -204,6 +204,9 @@ impl<W: Write> TextEncoder<W> {
             MetricValue::Int(x) => self
                 .writer
                 .write_all(itoa::Buffer::new().format(x).as_bytes())?,
+            MetricValue::Uint(x) => self
+                .writer
+                .write_all(itoa::Buffer::new().format(x).as_bytes())?,
             MetricValue::Float(x) => self
                 .writer
                 .write_all(ryu::Buffer::new().format(x).as_bytes())?,
@@ -255,7 +258,7 @@ impl<W: Write, const N: usize> MetricEncoding<TextEncoder<W>> for HistogramState
             enc.write_metric_value(
                 name.by_ref().with_suffix(Bucket),
                 labels.by_ref().compose_with(HistogramLabelLe { le }),
-                MetricValue::Int(val as i64),
+                MetricValue::Uint(val),
             )?;
         }
         let count = val + inf;
@@ -264,7 +267,7 @@ impl<W: Write, const N: usize> MetricEncoding<TextEncoder<W>> for HistogramState
             labels
                 .by_ref()
                 .compose_with(HistogramLabelLe { le: f64::INFINITY }),
-            MetricValue::Int(count as i64),
+            MetricValue::Uint(count),
         )?;
         enc.write_metric_value(
             name.by_ref().with_suffix(Sum),
@@ -274,7 +277,7 @@ impl<W: Write, const N: usize> MetricEncoding<TextEncoder<W>> for HistogramState
         enc.write_metric_value(
             name.by_ref().with_suffix(Count),
             labels,
-            MetricValue::Int(count as i64),
+            MetricValue::Uint(count),
         )?;
         Ok(())
     }
@@ -297,7 +300,7 @@ impl<W: Write> MetricEncoding<TextEncoder<W>> for CounterState {
         enc.write_metric_value(
             &name,
             labels,
-            MetricValue::Int(self.count.load(core::sync::atomic::Ordering::Relaxed) as i64),
+            MetricValue::Uint(self.count.load(core::sync::atomic::Ordering::Relaxed)),
         )
     }
 }
-- 
2.43.0


From 29e6952527dff2973fc794927f2fb932b664f84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:50 +0000
Subject: [PATCH 05/27] fix: count NaN observations only in the +Inf bucket

NaN is not less than or equal to any finite bound, but it was counted in
the lowest bucket.
---
 core/src/metric/histogram.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/src/metric/histogram.rs b/core/src/metric/histogram.rs
index 8937b77..2ffe05d 100644
--- a/core/src/metric/histogram.rs
+++ b/core/src/metric/histogram.rs
@@ -146,6 +146,14 @@ impl<const N: usize> Thresholds<N> {
         Thresholds { le: buckets }
     }
 
+    /// The first bucket whose upper bound is not less than `x`, or `N` if there is none (as for NaN).
+    fn bucket_index(&self, x: f64) -> usize {
+        if x.is_nan() {
+            return N;
+        }
+        self.le.partition_point(|le| x > *le)
+    }
+
     /// View the bucket upper bounds
     pub fn get(&self) -> &[f64; N] {
         &self.le
@@ -155,7 +163,7 @@ impl<const N: usize> Thresholds<N> {
 impl<const N: usize> HistogramLockGuard<'_, N> {
     /// Add a single observation to the [`Histogram`].
     pub fn observe(self, x: f64) {
-        let bucket = self.metadata().le.partition_point(|le| x > *le);
+        let bucket = self.metadata().bucket_index(x);
         self.inner.read().observe(bucket, x);
     }
 
@@ -175,7 +183,7 @@ impl<const N: usize> HistogramLockGuard<'_, N> {
 impl<const N: usize> HistogramMut<'_, N> {
     /// Add a single observation to the [`Histogram`].
     pub fn observe(mut self, x: f64) {
-        let bucket = self.metadata().le.partition_point(|le| x > *le);
+        let bucket = self.metadata().bucket_index(x);
         self.inner.get_mut().observe(bucket, x);
     }
 
-- 
2.43.0


From 05bb44d10e7f542a20fdae0f43a51bbf4ff75727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:51 +0000
Subject: [PATCH 06/27] fix: allow Thresholds::with_buckets without any bucket

`0..N - 1` underflowed for N = 0, which the other builders accept.
---
 core/src/metric/histogram.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/metric/histogram.rs b/core/src/metric/histogram.rs
index 2ffe05d..95a597c 100644
--- a/core/src/metric/histogram.rs
+++ b/core/src/metric/histogram.rs
@@ -137,9 +137,9 @@ impl<const N: usize> Thresholds<N> {
     /// # Panics
     /// Will panic if the buckets are not strictly monotonically increasing
     pub fn with_buckets(buckets: [f64; N]) -> Self {
-        for i in 0..N - 1 {
+        for pair in buckets.windows(2) {
             assert!(
-                buckets[i] < buckets[i + 1],
+                pair[0] < pair[1],
                 "consecutive histogram buckets must not decrease or be equal",
             );
         }
-- 
2.43.0


From 981af71f4dade1dc48c2e9dc5fb5f3053f67c5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:51 +0000
Subject: [PATCH 07/27] fix: report the start time of the monitored process,
 not of the caller

---
 process/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/process/src/lib.rs b/process/src/lib.rs
index c3707c8..f81fe58 100644
--- a/process/src/lib.rs
+++ b/process/src/lib.rs
@@ -58,7 +58,7 @@ impl ProcessCollector {
         let mut start_time = None;
         #[cfg(target_os = "linux")]
         if let Ok(boot_time) = procfs::boot_time_secs() {
-            if let Ok(stat) = procfs::process::Process::myself().and_then(|p| p.stat()) {
+            if let Ok(stat) = procfs::process::Process::new(pid).and_then(|p| p.stat()) {
                 start_time = Some(stat.starttime as i64 / clk_tck() + boot_time as i64);
             }
         }
-- 
2.43.0


From aff009415b7e1f6f65c0d9afa2ef4eb19e084780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:50 +0000
Subject: [PATCH 08/27] fix: do not merge a family that failed to be written
 into the next one

When the writer failed, the protobuf encoder kept the family in its buffer
while going back to its initial state, so the next family was appended to it.
---
 prometheus-proto/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prometheus-proto/src/lib.rs b/prometheus-proto/src/lib.rs
index 6aa7b06..61c67cc 100644
--- a/prometheus-proto/src/lib.rs
+++ b/prometheus-proto/src/lib.rs
@@ -48,9 +48,11 @@ impl<W: Write> ProtoEncoder<W> {
             let varint_len = encoded_len_varint(len as u64);
             let offset = 10 - varint_len;
             encode_varint(len as u64, &mut &mut self.buf[offset..]);
-            self.writer.write_all(&self.buf[offset..])?;
+            let res = self.writer.write_all(&self.buf[offset..]);
 
+            // whatever happened, these bytes must not end up in the next family
             self.buf.resize(10, 0);
+            res?;
         } else if self.buf.is_empty() {
             self.buf.resize(10, 0);
         }
-- 
2.43.0


From e6d7a798c17ad6873e64d091b74d1c079fe82b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:34 +0000
Subject: [PATCH 09/27] fix: never write a protobuf sample under the header of
 another family

The header of a family without metrics stayed in the buffer, so a following
family without help took its name, help and type. Samples written without
any header were appended to the previous family, or overwrote the room kept
for the length prefix. The encoder now remembers whose header it holds and
drops it when another family starts or at the end of the document.
---
 prometheus-proto/src/lib.rs | 150 +++++++++++++++++++++---------------
 1 file changed, 88 insertions(+), 62 deletions(-)

diff --git a/prometheus-proto/src/lib.rs b/prometheus-proto/src/lib.rs
index 61c67cc..ae21120 100644
--- a/prometheus-proto/src/lib.rs
+++ b/prometheus-proto/src/lib.rs
@@ -1,4 +1,4 @@
-use std::io::Write;
+use std::{io::Write, ops::Range};
 
 use encoding::{encode_key, encode_varint, encoded_len_varint, key_len, WireType::LengthDelimited};
 use measured::{
@@ -20,6 +20,8 @@ pub struct ProtoEncoder<W> {
     state: State,
     pub writer: W,
     buf: Vec<u8>,
+    // where in `buf` the name of the current family is
+    name: Range<usize>,
 }
 
 impl<W: Write> ProtoEncoder<W> {
@@ -31,6 +33,7 @@ impl<W: Write> ProtoEncoder<W> {
             state: State::Init,
             writer: w,
             buf: Vec::new(),
+            name: 0..0,
         }
     }
 
@@ -42,8 +45,6 @@ impl<W: Write> ProtoEncoder<W> {
 
     fn flush_buf(&mut self) -> Result<(), std::io::Error> {
         if self.state == State::Metrics {
-            self.state = State::Init;
-
             let len = self.buf.len() - 10;
             let varint_len = encoded_len_varint(len as u64);
             let offset = 10 - varint_len;
@@ -51,12 +52,80 @@ impl<W: Write> ProtoEncoder<W> {
             let res = self.writer.write_all(&self.buf[offset..]);
 
             // whatever happened, these bytes must not end up in the next family
-            self.buf.resize(10, 0);
-            res?;
-        } else if self.buf.is_empty() {
-            self.buf.resize(10, 0);
+            self.reset_buf();
+            res
+        } else {
+            // a header without any metrics is dropped
+            self.reset_buf();
+            Ok(())
+        }
+    }
+
+    fn reset_buf(&mut self) {
+        self.state = State::Init;
+        self.buf.clear();
+        self.buf.resize(10, 0);
+    }
+
+    /// Start a new family
+    fn start_family(&mut self, name: &impl MetricNameEncoder) -> Result<(), std::io::Error> {
+        self.flush_buf()?;
+
+        // optional string     name   = 1;
+        encode_key(1, LengthDelimited, &mut self.buf);
+        encode_varint(name.encode_len() as u64, &mut self.buf);
+        let start = self.buf.len();
+        name.encode_utf8(&mut self.buf)?;
+
+        self.name = start..self.buf.len();
+        self.state = State::Header;
+
+        Ok(())
+    }
+
+    /// Does the family in the buffer have this name?
+    fn in_family(&self, name: &impl MetricNameEncoder) -> Result<bool, std::io::Error> {
+        if self.state == State::Init {
+            return Ok(false);
+        }
+
+        let mut rest = Unwritten(Some(&self.buf[self.name.clone()]));
+        name.encode_utf8(&mut rest)?;
+        Ok(rest.0 == Some(&[]))
+    }
+
+    /// Write the type of the family called `name`
+    fn write_type(&mut self, name: &impl MetricNameEncoder, typ: i32) -> std::io::Result<()> {
+        if self.state != State::Header || !self.in_family(name)? {
+            self.start_family(name)?;
+        }
+
+        // optional MetricType type   = 3;
+        encoding::int32::encode(3, &typ, &mut self.buf);
+
+        Ok(())
+    }
+
+    /// Prepare to write a metric of the family called `name`
+    fn start_metric(&mut self, name: &impl MetricNameEncoder) -> std::io::Result<()> {
+        if !self.in_family(name)? {
+            self.start_family(name)?;
         }
-        debug_assert!(self.buf.len() >= 10);
+        self.state = State::Metrics;
+
+        Ok(())
+    }
+}
+
+/// The expected bytes that are still to be written, or None if something else was written.
+struct Unwritten<'a>(Option<&'a [u8]>);
+
+impl Write for Unwritten<'_> {
+    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
+        self.0 = self.0.and_then(|rest| rest.strip_prefix(b));
+        Ok(b.len())
+    }
+    fn flush(&mut self) -> std::io::Result<()> {
         Ok(())
     }
 }
@@ -64,7 +133,7 @@ impl<W: Write> ProtoEncoder<W> {
 #[derive(Clone, Copy, Debug, PartialEq)]
 enum State {
     Init,
-    Help,
+    Header,
     Metrics,
 }
 
@@ -92,18 +161,11 @@ impl<W: Write> Encoding for ProtoEncoder<W> {
         name: impl MetricNameEncoder,
         help: &str,
     ) -> Result<(), std::io::Error> {
-        self.flush_buf()?;
-
-        // optional string     name   = 1;
-        encode_key(1, LengthDelimited, &mut self.buf);
-        encode_varint(name.encode_len() as u64, &mut self.buf);
-        name.encode_utf8(&mut self.buf)?;
+        self.start_family(&name)?;
 
         // optional string     help   = 2;
         encoding::string::encode(2, help, &mut self.buf);
 
-        self.state = State::Help;
-
         Ok(())
     }
 }
@@ -223,30 +285,18 @@ impl<W: Write> MetricEncoding<ProtoEncoder<W>> for CounterState {
         name: impl MetricNameEncoder,
         enc: &mut ProtoEncoder<W>,
     ) -> Result<(), std::io::Error> {
-        enc.flush_buf()?;
-
-        if enc.state == State::Init {
-            // optional string     name   = 1;
-            encode_key(1, LengthDelimited, &mut enc.buf);
-            encode_varint(name.encode_len() as u64, &mut enc.buf);
-            name.encode_utf8(&mut enc.buf)?;
-        }
-
-        // optional MetricType type   = 3;
         // COUNTER = 0;
-        encoding::int32::encode(3, &0, &mut enc.buf);
-
-        Ok(())
+        enc.write_type(&name, 0)
     }
 
     fn collect_into(
         &self,
         _m: &(),
         labels: impl LabelGroup,
-        _name: impl MetricNameEncoder,
+        name: impl MetricNameEncoder,
         enc: &mut ProtoEncoder<W>,
     ) -> Result<(), std::io::Error> {
-        enc.state = State::Metrics;
+        enc.start_metric(&name)?;
 
         let mut metric_len = 0;
 
@@ -278,30 +328,18 @@ impl<W: Write> MetricEncoding<ProtoEncoder<W>> for GaugeState {
         name: impl MetricNameEncoder,
         enc: &mut ProtoEncoder<W>,
     ) -> Result<(), std::io::Error> {
-        enc.flush_buf()?;
-
-        if enc.state == State::Init {
-            // optional string     name   = 1;
-            encode_key(1, LengthDelimited, &mut enc.buf);
-            encode_varint(name.encode_len() as u64, &mut enc.buf);
-            name.encode_utf8(&mut enc.buf)?;
-        }
-
-        // optional MetricType type   = 3;
         // GAUGE = 1;
-        encoding::int32::encode(3, &1, &mut enc.buf);
-
-        Ok(())
+        enc.write_type(&name, 1)
     }
 
     fn collect_into(
         &self,
         _m: &(),
         labels: impl LabelGroup,
-        _name: impl MetricNameEncoder,
+        name: impl MetricNameEncoder,
         enc: &mut ProtoEncoder<W>,
     ) -> Result<(), std::io::Error> {
-        enc.state = State::Metrics;
+        enc.start_metric(&name)?;
 
         let mut metric_len = 0;
 
@@ -333,30 +371,18 @@ impl<W: Write> MetricEncoding<ProtoEncoder<W>> for FloatGaugeState {
         name: impl MetricNameEncoder,
         enc: &mut ProtoEncoder<W>,
     ) -> Result<(), std::io::Error> {
-        enc.flush_buf()?;
-
-        if enc.state == State::Init {
-            // optional string     name   = 1;
-            encode_key(1, LengthDelimited, &mut enc.buf);
-            encode_varint(name.encode_len() as u64, &mut enc.buf);
-            name.encode_utf8(&mut enc.buf)?;
-        }
-
-        // optional MetricType type   = 3;
         // GAUGE = 1;
-        encoding::int32::encode(3, &1, &mut enc.buf);
-
-        Ok(())
+        enc.write_type(&name, 1)
     }
 
     fn collect_into(
         &self,
         _m: &(),
         labels: impl LabelGroup,
-        _name: impl MetricNameEncoder,
+        name: impl MetricNameEncoder,
         enc: &mut ProtoEncoder<W>,
     ) -> Result<(), std::io::Error> {
-        enc.state = State::Metrics;
+        enc.start_metric(&name)?;
 
         let mut metric_len = 0;
 
-- 
2.43.0


From 69012b32024f515103ee93d18a50830a03f456ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:38 +0000
Subject: [PATCH 10/27] fix: never give two label groups one identity when
 their cardinality overflows

---
 derive/src/label_group/to_tokens.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/derive/src/label_group/to_tokens.rs b/derive/src/label_group/to_tokens.rs
index 827ef0d..c6de53d 100644
--- a/derive/src/label_group/to_tokens.rs
+++ b/derive/src/label_group/to_tokens.rs
@@ -278,12 +278,16 @@ impl ToTokens for SetEncode<'_> {
 
         tokens.extend(quote! {
             fn encode(&self, value: Self::Group<'_>) -> Option<Self::Unique> {
-                let mut mul = 1;
-                let mut index = 0;
+                // `None` once the cardinality so far does not fit into a usize
+                let mut mul = Some(1usize);
+                let mut index = 0usize;
 
                 #(
-                    index += #fixed_encodes * mul;
-                    mul *= #cardinalities;
+                    index = match #fixed_encodes {
+                        0 => index,
+                        i => i.checked_mul(mul?)?.checked_add(index)?,
+                    };
+                    mul = mul.and_then(|x| x.checked_mul(#cardinalities));
                 )*
 
                 Some((
-- 
2.43.0


From 33ec8a89b3005d88e626561d9aa191f6cca7c3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:38 +0000
Subject: [PATCH 11/27] fix: do not overflow in the dense encoding of composed
 label sets

---
 core/src/label/group.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/core/src/label/group.rs b/core/src/label/group.rs
index 28d7064..ad35dd1 100644
--- a/core/src/label/group.rs
+++ b/core/src/label/group.rs
@@ -75,16 +75,13 @@ impl<A: LabelGroupSet, B: LabelGroupSet> LabelGroupSet for ComposedGroup<A, B> {
     }
 
     fn encode_dense(&self, values: Self::Unique) -> Option<usize> {
-        let mut mul = 1;
-        let mut index = 0;
+        let index = self.1.encode_dense(values.1)?;
+        let mul = self.1.cardinality()?;
 
-        index += self.1.encode_dense(values.1)? * mul;
-        mul *= self.1.cardinality()?;
-
-        index += self.0.encode_dense(values.0)? * mul;
-        // mul *= self.1.cardinality()?;
-
-        Some(index)
+        self.0
+            .encode_dense(values.0)?
+            .checked_mul(mul)?
+            .checked_add(index)
     }
 
     fn decode_dense(&self, value: usize) -> Self::Group<'_> {
-- 
2.43.0


From 7b4d10d063c3feb239add88fec4e570d1bca3754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:21 +0000
Subject: [PATCH 12/27] fix: count no observation in a bucket whose bound is
 NaN

A NaN bound (an infinite width, or a single NaN) is not greater than or equal
to any observation, but the lowest such bucket was counted.
---
 core/src/metric/histogram.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/core/src/metric/histogram.rs b/core/src/metric/histogram.rs
index 95a597c..6298e0d 100644
--- a/core/src/metric/histogram.rs
+++ b/core/src/metric/histogram.rs
@@ -147,11 +147,10 @@ impl<const N: usize> Thresholds<N> {
     }
 
     /// The first bucket whose upper bound is not less than `x`, or `N` if there is none (as for NaN).
+    // not the same as `x > *le`: nothing is less than or equal to a NaN
+    #[allow(clippy::neg_cmp_op_on_partial_ord)]
     fn bucket_index(&self, x: f64) -> usize {
-        if x.is_nan() {
-            return N;
-        }
-        self.le.partition_point(|le| x > *le)
+        self.le.partition_point(|le| !(x <= *le))
     }
 
     /// View the bucket upper bounds
-- 
2.43.0


From 6b1f9c0a7ec1047707ffa9f0984068aecc6dc01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:43 +0000
Subject: [PATCH 13/27] fix: name raw identifiers without their r# prefix

A variant r#Type was exported as r_type, and fields with raw identifiers did
not compile.
---
 derive/src/label_group/to_tokens.rs  | 3 ++-
 derive/src/metric_group/to_tokens.rs | 4 ++--
 derive/src/value/to_tokens.rs        | 3 ++-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/derive/src/label_group/to_tokens.rs b/derive/src/label_group/to_tokens.rs
index c6de53d..01e0475 100644
--- a/derive/src/label_group/to_tokens.rs
+++ b/derive/src/label_group/to_tokens.rs
@@ -1,6 +1,7 @@
 use heck::ToShoutySnakeCase;
 use proc_macro2::TokenStream;
 use quote::{format_ident, quote, quote_spanned, ToTokens};
+use syn::ext::IdentExt;
 
 use super::attr::{LabelGroupFieldAttrsKind, LabelGroupFieldAttrsSortKey};
 use super::{LabelGroup, LabelGroupField};
@@ -19,7 +20,7 @@ impl ToTokens for LabelGroup {
 
         let visits = fields.iter().map(|x| {
             let LabelGroupField { name, attrs, .. } = x;
-            let name_string = attrs.rename.as_ref().map_or_else(|| name.to_string(), |r| r.value());
+            let name_string = attrs.rename.as_ref().map_or_else(|| name.unraw().to_string(), |r| r.value());
             let ident = format_ident!("{}", name_string.to_shouty_snake_case(), span = x.span);
             quote_spanned! { x.span =>
                 const #ident: &#krate::label::LabelName = #krate::label::LabelName::from_str(#name_string);
diff --git a/derive/src/metric_group/to_tokens.rs b/derive/src/metric_group/to_tokens.rs
index e2a4f0c..5a732d0 100644
--- a/derive/src/metric_group/to_tokens.rs
+++ b/derive/src/metric_group/to_tokens.rs
@@ -1,7 +1,7 @@
 use heck::ToShoutySnakeCase;
 use proc_macro2::TokenStream;
 use quote::{format_ident, quote, quote_spanned, ToTokens};
-use syn::{parse_quote, parse_quote_spanned};
+use syn::{ext::IdentExt, parse_quote, parse_quote_spanned};
 
 use super::{
     attr::{MetricGroupFieldAttrsInit, MetricGroupFieldAttrsKind},
@@ -52,7 +52,7 @@ impl ToTokens for MetricGroup {
             let MetricGroupField { name,ty, attrs, .. } = x;
             match &attrs.kind {
                 MetricGroupFieldAttrsKind::Metric { rename } => {
-                    let name_string = rename.as_ref().map_or_else(|| name.to_string(), |l| l.value());
+                    let name_string = rename.as_ref().map_or_else(|| name.unraw().to_string(), |l| l.value());
                     let ident = format_ident!("{}", name_string.to_shouty_snake_case(), span = x.span);
 
                     let help = attrs.docs.as_deref().map(|doc|{
diff --git a/derive/src/value/to_tokens.rs b/derive/src/value/to_tokens.rs
index 53a29fa..3e2e894 100644
--- a/derive/src/value/to_tokens.rs
+++ b/derive/src/value/to_tokens.rs
@@ -1,5 +1,6 @@
 use proc_macro2::TokenStream;
 use quote::{quote, quote_spanned, ToTokens};
+use syn::ext::IdentExt;
 
 use super::FixedCardinalityLabel;
 
@@ -25,7 +26,7 @@ impl ToTokens for FixedCardinalityLabel {
                 quote_spanned!(int.span() => v.write_int(#int))
             } else {
                 let name = var.attrs.rename.as_ref().map_or_else(
-                    || rename_all.apply(&var.ident.to_string()),
+                    || rename_all.apply(&var.ident.unraw().to_string()),
                     syn::LitStr::value,
                 );
                 quote_spanned!(var.span => v.write_str(#name))
-- 
2.43.0


From 6150085a9bc872fb26afbbd0c271cb170f4d5e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:14 +0000
Subject: [PATCH 14/27] fix: let label groups have fields called index, index1
 or card

The locals of the derived decode function shadowed, or were shadowed by, the
fields of those names, which did not compile.
---
 derive/src/label_group/to_tokens.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/derive/src/label_group/to_tokens.rs b/derive/src/label_group/to_tokens.rs
index 01e0475..b13843b 100644
--- a/derive/src/label_group/to_tokens.rs
+++ b/derive/src/label_group/to_tokens.rs
@@ -324,8 +324,8 @@ impl ToTokens for SetDecode<'_> {
                 } = x;
 
                 match &attrs.kind {
-                    LabelGroupFieldAttrsKind::Fixed => quote_spanned!(x.span => let #name = <#krate::label::StaticLabelSet<#ty> as #krate::label::LabelSet>::decode(&self.#name, index1);),
-                    LabelGroupFieldAttrsKind::FixedWith(ty) => quote_spanned!(x.span => let #name = <#ty as #krate::label::LabelSet>::decode(&self.#name, index1);),
+                    LabelGroupFieldAttrsKind::Fixed => quote_spanned!(x.span => let #name = <#krate::label::StaticLabelSet<#ty> as #krate::label::LabelSet>::decode(&self.#name, __index1);),
+                    LabelGroupFieldAttrsKind::FixedWith(ty) => quote_spanned!(x.span => let #name = <#ty as #krate::label::LabelSet>::decode(&self.#name, __index1);),
                     LabelGroupFieldAttrsKind::DynamicWith(_) =>unreachable!(),
                 }
             })
@@ -334,7 +334,7 @@ impl ToTokens for SetDecode<'_> {
         let dynamic_indices = dynamics
             .iter()
             .enumerate()
-            .map(|(i, _)| format_ident!("dynamic_index{i}"))
+            .map(|(i, _)| format_ident!("__dynamic_index{i}"))
             .collect::<Vec<_>>();
 
         let dynamic_decodes: Vec<TokenStream> = dynamics
@@ -357,15 +357,15 @@ impl ToTokens for SetDecode<'_> {
 
         tokens.extend(quote! {
             fn decode(&self, value: &Self::Unique) -> Self::Group<'_> {
-                let (index #(, #dynamic_indices)*) = *value;
+                let (__index #(, #dynamic_indices)*) = *value;
 
                 #(
-                    let card = #cardinalities;
-                    let (index, index1) = (index / card, index % card);
+                    let __card = #cardinalities;
+                    let (__index, __index1) = (__index / __card, __index % __card);
                     #fixed_decodes;
                 )*
 
-                debug_assert_eq!(index, 0);
+                debug_assert_eq!(__index, 0);
 
                 #(
                     #dynamic_decodes;
-- 
2.43.0


From df8694d4dbb19c943e87549a61a7bb060c438820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:04 +0000
Subject: [PATCH 15/27] fix: let exclusive counter and gauge updates wrap like
 the shared ones

---
 core/src/metric/counter.rs |  6 ++++--
 core/src/metric/gauge.rs   | 12 ++++++++----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/core/src/metric/counter.rs b/core/src/metric/counter.rs
index 9271b2f..a1fdf83 100644
--- a/core/src/metric/counter.rs
+++ b/core/src/metric/counter.rs
@@ -43,12 +43,14 @@ impl CounterState {
 impl CounterMut<'_> {
     /// Increment the counter value by 1
     pub fn inc(mut self) {
-        *self.count.get_mut() += 1;
+        let count = self.count.get_mut();
+        *count = count.wrapping_add(1);
     }
 
     /// Increment the counter value by `x`
     pub fn inc_by(mut self, x: u64) {
-        *self.count.get_mut() += x;
+        let count = self.count.get_mut();
+        *count = count.wrapping_add(x);
     }
 }
 
diff --git a/core/src/metric/gauge.rs b/core/src/metric/gauge.rs
index 202b1cd..b46d260 100644
--- a/core/src/metric/gauge.rs
+++ b/core/src/metric/gauge.rs
@@ -90,22 +90,26 @@ impl GaugeLockGuard<'_> {
 impl GaugeMut<'_> {
     /// Increment the gauge value by 1
     pub fn inc(mut self) {
-        *self.count.get_mut() += 1;
+        let count = self.count.get_mut();
+        *count = count.wrapping_add(1);
     }
 
     /// Increment the gauge value by `x`
     pub fn inc_by(mut self, x: i64) {
-        *self.count.get_mut() += x;
+        let count = self.count.get_mut();
+        *count = count.wrapping_add(x);
     }
 
     /// Decrement the gauge value by 1
     pub fn dec(mut self) {
-        *self.count.get_mut() -= 1;
+        let count = self.count.get_mut();
+        *count = count.wrapping_sub(1);
     }
 
     /// Decrement the gauge value by `x`
     pub fn dec_by(mut self, x: i64) {
-        *self.count.get_mut() -= x;
+        let count = self.count.get_mut();
+        *count = count.wrapping_sub(x);
     }
 
     /// Set the gauge value to `x`
-- 
2.43.0


From e7aee14b3b3ea335a3ef9a7cd3a3b895c53d02fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:04 +0000
Subject: [PATCH 16/27] fix: do not count . and .. as open file descriptors

---
 process/src/lib.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/process/src/lib.rs b/process/src/lib.rs
index f81fe58..88fe98f 100644
--- a/process/src/lib.rs
+++ b/process/src/lib.rs
@@ -86,7 +86,7 @@ where
             };
 
             // file descriptors
-            if let Ok(fd_count) = p.fd_count() {
+            if let Ok(fd_count) = fd_count(&p) {
                 let fd = MetricName::from_str("open_fds");
                 enc.write_help(fd, "Number of open file descriptors.")?;
                 write_gauge(enc, fd, NoLabels, fd_count as i64)?;
@@ -139,6 +139,18 @@ where
     }
 }
 
+#[cfg(target_os = "linux")]
+fn fd_count(p: &procfs::process::Process) -> procfs::ProcResult<usize> {
+    let reported = std::fs::metadata(format!("/proc/{}/fd", p.pid)).map_or(0, |m| m.len());
+    let count = p.fd_count()?;
+    if reported > 0 {
+        Ok(count)
+    } else {
+        // the kernel reports no size, so the entries were counted, `.` and `..` among them
+        Ok(count.saturating_sub(2))
+    }
+}
+
 fn clk_tck() -> i64 {
     static CLK_TCK: OnceLock<i64> = OnceLock::new();
     *CLK_TCK.get_or_init(|| unsafe { libc::sysconf(libc::_SC_CLK_TCK) } as i64)
-- 
2.43.0


From 508bae5a45abf6e6cf73cce00a2e6efbe6aace37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:04 +0000
Subject: [PATCH 17/27] fix: do not report another process that was given the
 same pid

---
 process/src/lib.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/process/src/lib.rs b/process/src/lib.rs
index 88fe98f..a2eed65 100644
--- a/process/src/lib.rs
+++ b/process/src/lib.rs
@@ -48,6 +48,7 @@ use measured::{
 /// start time for the given process id.
 pub struct ProcessCollector {
     pid: pid_t,
+    start_ticks: Option<u64>,
     start_time: Option<i64>,
 }
 
@@ -55,15 +56,21 @@ impl ProcessCollector {
     /// Create a `ProcessCollector` with the given process id and namespace.
     pub fn new(pid: pid_t) -> ProcessCollector {
         // proc_start_time init once because it is immutable
+        let mut start_ticks = None;
         let mut start_time = None;
         #[cfg(target_os = "linux")]
-        if let Ok(boot_time) = procfs::boot_time_secs() {
-            if let Ok(stat) = procfs::process::Process::new(pid).and_then(|p| p.stat()) {
+        if let Ok(stat) = procfs::process::Process::new(pid).and_then(|p| p.stat()) {
+            start_ticks = Some(stat.starttime);
+            if let Ok(boot_time) = procfs::boot_time_secs() {
                 start_time = Some(stat.starttime as i64 / clk_tck() + boot_time as i64);
             }
         }
 
-        ProcessCollector { pid, start_time }
+        ProcessCollector {
+            pid,
+            start_ticks,
+            start_time,
+        }
     }
 
     /// Return a `ProcessCollector` of the calling process.
@@ -85,6 +92,14 @@ where
                 return Ok(());
             };
 
+            let stat = p.stat();
+            if let (Some(start_ticks), Ok(stat)) = (self.start_ticks, &stat) {
+                if stat.starttime != start_ticks {
+                    // our process is gone, and its pid was given to another one
+                    return Ok(());
+                }
+            }
+
             // file descriptors
             if let Ok(fd_count) = fd_count(&p) {
                 let fd = MetricName::from_str("open_fds");
@@ -99,7 +114,7 @@ where
                 }
             }
 
-            if let Ok(stat) = p.stat() {
+            if let Ok(stat) = stat {
                 // memory
                 let vmm = MetricName::from_str("virtual_memory_bytes");
                 enc.write_help(vmm, "Virtual memory size in bytes.")?;
-- 
2.43.0


From 93a8d67ff954aa45f5600f3d5051b83ee2fa79f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:37 +0000
Subject: [PATCH 18/27] fix: declare the type of the process families

---
 process/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/process/src/lib.rs b/process/src/lib.rs
index a2eed65..77967ac 100644
--- a/process/src/lib.rs
+++ b/process/src/lib.rs
@@ -104,12 +104,14 @@ where
             if let Ok(fd_count) = fd_count(&p) {
                 let fd = MetricName::from_str("open_fds");
                 enc.write_help(fd, "Number of open file descriptors.")?;
+                GaugeState::write_type(fd, enc)?;
                 write_gauge(enc, fd, NoLabels, fd_count as i64)?;
             }
             if let Ok(limits) = p.limits() {
                 if let procfs::process::LimitValue::Value(max) = limits.max_open_files.soft_limit {
                     let fd = MetricName::from_str("max_fds");
                     enc.write_help(fd, "Maximum number of open file descriptors.")?;
+                    GaugeState::write_type(fd, enc)?;
                     write_gauge(enc, fd, NoLabels, max as i64)?;
                 }
             }
@@ -118,15 +120,18 @@ where
                 // memory
                 let vmm = MetricName::from_str("virtual_memory_bytes");
                 enc.write_help(vmm, "Virtual memory size in bytes.")?;
+                GaugeState::write_type(vmm, enc)?;
                 write_gauge(enc, vmm, NoLabels, stat.vsize as i64)?;
 
                 let rss = MetricName::from_str("resident_memory_bytes");
                 enc.write_help(rss, "Resident memory size in bytes.")?;
+                GaugeState::write_type(rss, enc)?;
                 write_gauge(enc, rss, NoLabels, (stat.rss as i64) * pagesize())?;
 
                 // cpu
                 let cpu = MetricName::from_str("cpu_seconds_total");
                 enc.write_help(cpu, "Total user and system CPU time spent in seconds.")?;
+                GaugeState::write_type(cpu, enc)?;
                 write_gauge(
                     enc,
                     cpu,
@@ -137,6 +142,7 @@ where
                 // threads
                 let threads = MetricName::from_str("threads");
                 enc.write_help(threads, "Number of OS threads in the process.")?;
+                GaugeState::write_type(threads, enc)?;
                 write_gauge(enc, threads, NoLabels, stat.num_threads)?;
             }
 
@@ -146,6 +152,7 @@ where
                     name,
                     "Start time of the process since unix epoch in seconds.",
                 )?;
+                GaugeState::write_type(name, enc)?;
                 write_gauge(enc, name, NoLabels, start_time)?;
             }
         }
-- 
2.43.0


From bcce171f6a8556b5b7aafe4948f9705c3f984bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:37 +0000
Subject: [PATCH 19/27] fix: declare the types of the runtime families

---
 tokio/src/lib.rs | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/tokio/src/lib.rs b/tokio/src/lib.rs
index b4ddd29..28c71c2 100644
--- a/tokio/src/lib.rs
+++ b/tokio/src/lib.rs
@@ -149,10 +149,11 @@ where
     FloatGaugeState: MetricEncoding<Enc>,
 {
     macro_rules! metric {
-        ($name:literal, $help:literal, |$rt:ident| $expr:expr) => {{
+        ($name:literal, $help:literal, $($state:ty,)? |$rt:ident| $expr:expr) => {{
             #![allow(unused_macros)]
             const NAME: &MetricName = MetricName::from_str($name);
             enc.write_help(NAME, $help)?;
+            $(<$state as MetricEncoding<Enc>>::write_type(NAME, enc)?;)?
             for rt in runtimes {
                 let rt_name = &rt.name;
                 macro_rules! write_counter {
@@ -200,25 +201,32 @@ where
         }};
     }
 
-    metric!("threads", "number of threads used by the runtime", |rt| {
-        write_gauge!(ThreadKind::Worker, rt.num_workers() as i64);
-        let idle = rt.num_idle_blocking_threads();
-        write_gauge!(
-            ThreadKind::Blocking,
-            rt.num_blocking_threads().saturating_sub(idle) as i64
-        );
-        write_gauge!(ThreadKind::Idle, idle as i64);
-    });
+    metric!(
+        "threads",
+        "number of threads used by the runtime",
+        GaugeState,
+        |rt| {
+            write_gauge!(ThreadKind::Worker, rt.num_workers() as i64);
+            let idle = rt.num_idle_blocking_threads();
+            write_gauge!(
+                ThreadKind::Blocking,
+                rt.num_blocking_threads().saturating_sub(idle) as i64
+            );
+            write_gauge!(ThreadKind::Idle, idle as i64);
+        }
+    );
 
     metric!(
         "active_tasks",
         "number of active tasks spawned in the runtime",
+        GaugeState,
         |rt| write_gauge!(NoLabels, rt.active_tasks_count() as i64)
     );
 
     metric!(
         "queued_tasks",
         "number of tasks currently in a queue",
+        GaugeState,
         |rt| {
             write_gauge!(QueueKind::Blocking, rt.blocking_queue_depth() as i64);
             write_gauge!(QueueKind::Injection, rt.injection_queue_depth() as i64);
@@ -232,6 +240,7 @@ where
     metric!(
         "scheduled_tasks_total",
         "total number of tasks scheduled into the runtime",
+        CounterState,
         |rt| {
             for worker in 0..rt.num_workers() {
                 write_counter!(
@@ -253,12 +262,14 @@ where
     metric!(
         "budget_forced_yield_count",
         "number of tasks forced to yield after exhausting their budget",
+        CounterState,
         |rt| write_counter!(NoLabels, rt.budget_forced_yield_count())
     );
 
     metric!(
         "worker_mean_poll_time_seconds",
         "estimated weighted moving average of the poll time for this worker",
+        FloatGaugeState,
         |rt| for worker in 0..rt.num_workers() {
             let poll_time = rt.worker_mean_poll_time(worker);
             write_float_gauge!(Worker(worker), poll_time.as_secs_f64());
@@ -268,6 +279,7 @@ where
     metric!(
         "worker_noop_count",
         "number of times the given worker thread woke up with no work",
+        CounterState,
         |rt| for worker in 0..rt.num_workers() {
             let noops = rt.worker_noop_count(worker);
             write_counter!(Worker(worker), noops);
@@ -277,6 +289,7 @@ where
     metric!(
         "worker_park_count",
         "number of times the given worker thread has parked",
+        CounterState,
         |rt| for worker in 0..rt.num_workers() {
             let count = rt.worker_park_count(worker);
             write_counter!(Worker(worker), count);
@@ -286,6 +299,7 @@ where
     metric!(
         "worker_steal_count",
         "number of tasks the given worker thread has stolen",
+        CounterState,
         |rt| for worker in 0..rt.num_workers() {
             let count = rt.worker_steal_count(worker);
             write_counter!(Worker(worker), count);
@@ -295,6 +309,7 @@ where
     metric!(
         "worker_steal_operations_count",
         "number of times the given worker thread has attempted to steal tasks",
+        CounterState,
         |rt| for worker in 0..rt.num_workers() {
             let count = rt.worker_steal_operations(worker);
             write_counter!(Worker(worker), count);
@@ -327,16 +342,19 @@ where
         metric!(
             "registered_fds_total",
             "total number of file descriptors that have been registered in the runtime",
+            CounterState,
             |rt| write_counter!(NoLabels, rt.io_driver_fd_registered_count())
         );
         metric!(
             "deregistered_fds_total",
             "total number of file descriptors that have been deregistered from the runtime",
+            CounterState,
             |rt| write_counter!(NoLabels, rt.io_driver_fd_deregistered_count())
         );
         metric!(
             "io_ready_events_total",
             "total number of ready events the runtime's IO driver has processed",
+            CounterState,
             |rt| write_counter!(NoLabels, rt.io_driver_ready_count())
         );
     }
-- 
2.43.0


From fa7be5e071b1ae6d72be035fb072f5a4f77abf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:22 +0000
Subject: [PATCH 20/27] fix: always write the type of a protobuf family

---
 prometheus-proto/src/lib.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/prometheus-proto/src/lib.rs b/prometheus-proto/src/lib.rs
index ae21120..1f881b8 100644
--- a/prometheus-proto/src/lib.rs
+++ b/prometheus-proto/src/lib.rs
@@ -96,21 +96,28 @@ impl<W: Write> ProtoEncoder<W> {
 
     /// Write the type of the family called `name`
     fn write_type(&mut self, name: &impl MetricNameEncoder, typ: i32) -> std::io::Result<()> {
-        if self.state != State::Header || !self.in_family(name)? {
+        if self.state == State::Metrics || !self.in_family(name)? {
             self.start_family(name)?;
         }
+        self.push_type(typ);
 
+        Ok(())
+    }
+
+    fn push_type(&mut self, typ: i32) {
         // optional MetricType type   = 3;
         encoding::int32::encode(3, &typ, &mut self.buf);
-
-        Ok(())
+        self.state = State::Typed;
     }
 
-    /// Prepare to write a metric of the family called `name`
-    fn start_metric(&mut self, name: &impl MetricNameEncoder) -> std::io::Result<()> {
+    /// Prepare to write a metric of the family called `name`, which has this type unless another was written
+    fn start_metric(&mut self, name: &impl MetricNameEncoder, typ: i32) -> std::io::Result<()> {
         if !self.in_family(name)? {
             self.start_family(name)?;
         }
+        if self.state == State::Header {
+            self.push_type(typ);
+        }
         self.state = State::Metrics;
 
         Ok(())
@@ -134,6 +141,7 @@ impl Write for Unwritten<'_> {
 enum State {
     Init,
     Header,
+    Typed,
     Metrics,
 }
 
@@ -296,7 +304,7 @@ impl<W: Write> MetricEncoding<ProtoEncoder<W>> for CounterState {
         name: impl MetricNameEncoder,
         enc: &mut ProtoEncoder<W>,
     ) -> Result<(), std::io::Error> {
-        enc.start_metric(&name)?;
+        enc.start_metric(&name, 0)?;
 
         let mut metric_len = 0;
 
@@ -339,7 +347,7 @@ impl<W: Write> MetricEncoding<ProtoEncoder<W>> for GaugeState {
         name: impl MetricNameEncoder,
         enc: &mut ProtoEncoder<W>,
     ) -> Result<(), std::io::Error> {
-        enc.start_metric(&name)?;
+        enc.start_metric(&name, 1)?;
 
         let mut metric_len = 0;
 
@@ -382,7 +390,7 @@ impl<W: Write> MetricEncoding<ProtoEncoder<W>> for FloatGaugeState {
         name: impl MetricNameEncoder,
         enc: &mut ProtoEncoder<W>,
     ) -> Result<(), std::io::Error> {
-        enc.start_metric(&name)?;
+        enc.start_metric(&name, 1)?;
 
         let mut metric_len = 0;
 
-- 
2.43.0


From fca47485e36fb32548f1b7b9fd9b2bae3a31f21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:07 +0000
Subject: [PATCH 21/27] fix: a panic while a runtime is being registered
 poisoned the collector

---
 tokio/src/lib.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/tokio/src/lib.rs b/tokio/src/lib.rs
index 28c71c2..4d6b754 100644
--- a/tokio/src/lib.rs
+++ b/tokio/src/lib.rs
@@ -56,10 +56,9 @@ impl NamedRuntimesCollector {
 
     /// Inserts a `RuntimeCollector` with the given runtime.
     pub fn add(&self, rt: RuntimeMetrics, name: impl Into<Cow<'static, str>>) {
-        self.runtimes
-            .write()
-            .unwrap()
-            .push(RuntimeCollector::new(rt).with_name(name))
+        // built before the lock is taken: a panic here must not poison it
+        let collector = RuntimeCollector::new(rt).with_name(name);
+        self.runtimes.write().unwrap().push(collector)
     }
 
     /// Inserts a `RuntimeCollector` for the current runtime.
@@ -71,10 +70,8 @@ impl NamedRuntimesCollector {
     /// `EnterGuard`. Calling this from within a thread created by `std::thread::spawn` (for example)
     /// will cause a panic unless that thread has an active `EnterGuard`.
     pub fn add_current(&self, name: impl Into<Cow<'static, str>>) {
-        self.runtimes
-            .write()
-            .unwrap()
-            .push(RuntimeCollector::current().with_name(name))
+        let collector = RuntimeCollector::current().with_name(name);
+        self.runtimes.write().unwrap().push(collector)
     }
 }
 
-- 
2.43.0


From 9a0b03b440fbd2591b928451b31f7b657f524944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:41 +0000
Subject: [PATCH 22/27] fix: let names differ in more than their words

The derives named the constants of metric and label names by the words of
the name alone: a name without any ("_", "_1", ":") panicked the macro, and
two names with the same words ("a:b" and "a_b", "aB" and "a_b") did not
compile together.
---
 derive/src/label_group/to_tokens.rs  |  4 ++--
 derive/src/lib.rs                    | 13 +++++++++++++
 derive/src/metric_group/to_tokens.rs |  4 ++--
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/derive/src/label_group/to_tokens.rs b/derive/src/label_group/to_tokens.rs
index b13843b..8acb145 100644
--- a/derive/src/label_group/to_tokens.rs
+++ b/derive/src/label_group/to_tokens.rs
@@ -1,4 +1,3 @@
-use heck::ToShoutySnakeCase;
 use proc_macro2::TokenStream;
 use quote::{format_ident, quote, quote_spanned, ToTokens};
 use syn::ext::IdentExt;
@@ -21,8 +20,9 @@ impl ToTokens for LabelGroup {
         let visits = fields.iter().map(|x| {
             let LabelGroupField { name, attrs, .. } = x;
             let name_string = attrs.rename.as_ref().map_or_else(|| name.unraw().to_string(), |r| r.value());
-            let ident = format_ident!("{}", name_string.to_shouty_snake_case(), span = x.span);
+            let ident = crate::name_ident(&name_string, x.span);
             quote_spanned! { x.span =>
+                #[allow(non_upper_case_globals)]
                 const #ident: &#krate::label::LabelName = #krate::label::LabelName::from_str(#name_string);
                 #krate::label::LabelGroupVisitor::write_value(v, #ident, &self.#name);
             }
diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index 629a365..2208bf5 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -32,6 +32,19 @@ pub fn derive_metric_group(input: proc_macro::TokenStream) -> proc_macro::TokenS
     .into()
 }
 
+/// The ident of the constant that holds `name`. Different names have different idents.
+fn name_ident(name: &str, span: proc_macro2::Span) -> syn::Ident {
+    let mut ident = String::from("NAME_");
+    for c in name.chars() {
+        match c {
+            '_' => ident.push_str("__"),
+            c if c.is_ascii_alphanumeric() => ident.push(c),
+            c => ident.push_str(&format!("_{:x}_", u32::from(c))),
+        }
+    }
+    syn::Ident::new(&ident, span)
+}
+
 const CRATE: &str = "measured";
 struct Krate(pub syn::Path);
 
diff --git a/derive/src/metric_group/to_tokens.rs b/derive/src/metric_group/to_tokens.rs
index 5a732d0..667c0ff 100644
--- a/derive/src/metric_group/to_tokens.rs
+++ b/derive/src/metric_group/to_tokens.rs
@@ -1,4 +1,3 @@
-use heck::ToShoutySnakeCase;
 use proc_macro2::TokenStream;
 use quote::{format_ident, quote, quote_spanned, ToTokens};
 use syn::{ext::IdentExt, parse_quote, parse_quote_spanned};
@@ -53,7 +52,7 @@ impl ToTokens for MetricGroup {
             match &attrs.kind {
                 MetricGroupFieldAttrsKind::Metric { rename } => {
                     let name_string = rename.as_ref().map_or_else(|| name.unraw().to_string(), |l| l.value());
-                    let ident = format_ident!("{}", name_string.to_shouty_snake_case(), span = x.span);
+                    let ident = crate::name_ident(&name_string, x.span);
 
                     let help = attrs.docs.as_deref().map(|doc|{
                         let doc = doc.trim();
@@ -63,6 +62,7 @@ impl ToTokens for MetricGroup {
                     });
 
                     quote_spanned! { x.span =>
+                        #[allow(non_upper_case_globals)]
                         const #ident: &#krate::metric::name::MetricName = #krate::metric::name::MetricName::from_str(#name_string);
                         #help
                         <#ty as #krate::metric::MetricFamilyEncoding<#enc>>::collect_family_into(&self.#name, #ident, enc)?;
-- 
2.43.0


From cd1408d65cdd62c8a2d6ed6f1485aae6817b6b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:41 +0000
Subject: [PATCH 23/27] fix: allow a trailing comma in the arguments of a
 derived label

---
 derive/src/value/attr.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/derive/src/value/attr.rs b/derive/src/value/attr.rs
index 6a891ec..0bab67a 100644
--- a/derive/src/value/attr.rs
+++ b/derive/src/value/attr.rs
@@ -29,13 +29,7 @@ impl ContainerAttrs {
 
 impl ContainerAttrs {
     fn parse(mut self, input: ParseStream) -> syn::Result<Self> {
-        let mut first = true;
         while !input.is_empty() {
-            if !first {
-                input.parse::<Token![,]>()?;
-            }
-            first = false;
-
             match () {
                 () if input.peek(Token![crate]) => {
                     let _: Token![crate] = input.parse()?;
@@ -64,6 +58,10 @@ impl ContainerAttrs {
                 }
                 () => return Err(input.error("unknown argument found")),
             }
+
+            if !input.is_empty() {
+                input.parse::<Token![,]>()?;
+            }
         }
         Ok(self)
     }
-- 
2.43.0


From 970bd54e01f798d1de4950b56f570c18f84a0623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:03 +0000
Subject: [PATCH 24/27] fix: derive metric groups with doc attributes that are
 not documentation

---
 derive/src/metric_group/attr.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/derive/src/metric_group/attr.rs b/derive/src/metric_group/attr.rs
index b8e7d0d..f830558 100644
--- a/derive/src/metric_group/attr.rs
+++ b/derive/src/metric_group/attr.rs
@@ -1,6 +1,6 @@
 use syn::{
     parenthesized, punctuated::Punctuated, spanned::Spanned, Attribute, Expr, ExprLit, FnArg, Lit,
-    LitStr, Token,
+    LitStr, Meta, Token,
 };
 
 use crate::Krate;
@@ -161,8 +161,11 @@ impl MetricGroupFieldAttrs {
                     Ok(())
                 })?;
             } else if attr.path().is_ident("doc") {
-                let expr = &attr.meta.require_name_value()?.value;
-                let s = match expr {
+                // `#[doc(hidden)]` and the like are not documentation
+                let Meta::NameValue(doc) = &attr.meta else {
+                    continue;
+                };
+                let s = match &doc.value {
                     Expr::Lit(ExprLit {
                         lit: Lit::Str(s), ..
                     }) => s,
-- 
2.43.0


From 78f0c0215065874801563867a1351d5f9de8ca8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:39 +0000
Subject: [PATCH 25/27] fix: export buckets with the same bound once

---
 core/src/text.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/src/text.rs b/core/src/text.rs
index b5dd223..c71007c 100644
--- a/core/src/text.rs
+++ b/core/src/text.rs
@@ -255,6 +255,11 @@ impl<W: Write, const N: usize> MetricEncoding<TextEncoder<W>> for HistogramState
         for i in 0..N {
             let le = metadata.get()[i];
             val += buckets[i];
+            // buckets with the same bound would be the same sample
+            let next = metadata.get().get(i + 1).copied();
+            if le == next.unwrap_or(f64::INFINITY) {
+                continue;
+            }
             enc.write_metric_value(
                 name.by_ref().with_suffix(Bucket),
                 labels.by_ref().compose_with(HistogramLabelLe { le }),
-- 
2.43.0


From 7291776d23b3b0dcb5d8ab43fe1eeb786f8a4766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:34 +0000
Subject: [PATCH 26/27] fix: derive where Result, Option or a variant of an
 enum has another meaning

---
 derive/src/label_group/to_tokens.rs  | 22 +++++++++++-----------
 derive/src/metric_group/to_tokens.rs |  4 ++--
 derive/src/value/to_tokens.rs        |  2 +-
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/derive/src/label_group/to_tokens.rs b/derive/src/label_group/to_tokens.rs
index 8acb145..2fe211a 100644
--- a/derive/src/label_group/to_tokens.rs
+++ b/derive/src/label_group/to_tokens.rs
@@ -160,13 +160,13 @@ impl ToTokens for Set<'_> {
 
         let cardinality_fns = if dynamics.is_empty() {
             quote!(
-                fn cardinality(&self) -> Option<usize> {
-                    Some(1usize)
+                fn cardinality(&self) -> ::core::option::Option<usize> {
+                    ::core::option::Option::Some(1usize)
                         #( .and_then(|x| x.checked_mul(#cardinalities)) )*
                 }
                 type Unique = usize;
-                fn encode_dense(&self, value: Self::Unique) -> Option<usize> {
-                    Some(value)
+                fn encode_dense(&self, value: Self::Unique) -> ::core::option::Option<usize> {
+                    ::core::option::Option::Some(value)
                 }
                 fn decode_dense(&self, value: usize) -> Self::Group<'_> {
                     self.decode(&value)
@@ -175,13 +175,13 @@ impl ToTokens for Set<'_> {
         } else {
             let dynamics = dynamics.iter().map(|_| quote!(usize));
             quote!(
-                fn cardinality(&self) -> Option<usize> {
-                    None
+                fn cardinality(&self) -> ::core::option::Option<usize> {
+                    ::core::option::Option::None
                 }
                 type Unique = (usize, #(#dynamics),*);
 
-                fn encode_dense(&self, _value: Self::Unique) -> Option<usize> {
-                    None
+                fn encode_dense(&self, _value: Self::Unique) -> ::core::option::Option<usize> {
+                    ::core::option::Option::None
                 }
                 fn decode_dense(&self, _value: usize) -> Self::Group<'_> {
                     unreachable!("does not have a dense encoding")
@@ -278,9 +278,9 @@ impl ToTokens for SetEncode<'_> {
             .collect();
 
         tokens.extend(quote! {
-            fn encode(&self, value: Self::Group<'_>) -> Option<Self::Unique> {
+            fn encode(&self, value: Self::Group<'_>) -> ::core::option::Option<Self::Unique> {
                 // `None` once the cardinality so far does not fit into a usize
-                let mut mul = Some(1usize);
+                let mut mul = ::core::option::Option::Some(1usize);
                 let mut index = 0usize;
 
                 #(
@@ -291,7 +291,7 @@ impl ToTokens for SetEncode<'_> {
                     mul = mul.and_then(|x| x.checked_mul(#cardinalities));
                 )*
 
-                Some((
+                ::core::option::Option::Some((
                     index
                     #(, #dynamic_encodes)*
                 ))
diff --git a/derive/src/metric_group/to_tokens.rs b/derive/src/metric_group/to_tokens.rs
index 667c0ff..9a2cf72 100644
--- a/derive/src/metric_group/to_tokens.rs
+++ b/derive/src/metric_group/to_tokens.rs
@@ -87,9 +87,9 @@ impl ToTokens for MetricGroup {
         tokens.extend(quote! {
             #[automatically_derived]
             impl #group_impl_generics #krate::metric::group::MetricGroup<#enc> for #ident #ty_generics #group_where_clause {
-                fn collect_group_into(&self, enc: &mut #enc) -> Result<(), #enc::Err>{
+                fn collect_group_into(&self, enc: &mut #enc) -> ::core::result::Result<(), #enc::Err>{
                     #(#visits)*
-                    Ok(())
+                    ::core::result::Result::Ok(())
                 }
             }
         });
diff --git a/derive/src/value/to_tokens.rs b/derive/src/value/to_tokens.rs
index 3e2e894..d55af53 100644
--- a/derive/src/value/to_tokens.rs
+++ b/derive/src/value/to_tokens.rs
@@ -68,7 +68,7 @@ impl ToTokens for FixedCardinalityLabel {
 
             #[automatically_derived]
             impl #krate::label::LabelValue for #ident {
-                fn visit<V: #krate::label::LabelVisitor>(&self, v: V) -> V::Output {
+                fn visit<__LabelVisitorT: #krate::label::LabelVisitor>(&self, v: __LabelVisitorT) -> __LabelVisitorT::Output {
                     match self {
                         #(#visits)*
                     }
-- 
2.43.0


From 96e63914199e3a4a9efe526c05aec20087f1b205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:41 +0000
Subject: [PATCH 27/27] fix: bucket builders lost bounds whose power or offset
 alone overflows

---
 core/src/metric/histogram.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/core/src/metric/histogram.rs b/core/src/metric/histogram.rs
index 6298e0d..74d7fcb 100644
--- a/core/src/metric/histogram.rs
+++ b/core/src/metric/histogram.rs
@@ -111,7 +111,19 @@ impl<const N: usize> Thresholds<N> {
             "exponential_buckets needs a factor greater than 1, factor: {factor}",
         );
 
-        let buckets = core::array::from_fn(|i| start * factor.powi(i as i32));
+        let mut last = start;
+        let buckets = core::array::from_fn(|i| {
+            // the power may overflow where the bound itself does not
+            let power = factor.powi(i as i32);
+            if i > 0 {
+                last = if power.is_finite() {
+                    start * power
+                } else {
+                    last * factor
+                };
+            }
+            last
+        });
 
         Thresholds { le: buckets }
     }
@@ -127,7 +139,19 @@ impl<const N: usize> Thresholds<N> {
             "linear_buckets needs a width greater than 0, width: {width}",
         );
 
-        let buckets = core::array::from_fn(|i| start + width * i as f64);
+        let mut last = start;
+        let buckets = core::array::from_fn(|i| {
+            // the offset may overflow where the bound itself does not
+            let offset = width * i as f64;
+            if i > 0 {
+                last = if offset.is_finite() {
+                    start + offset
+                } else {
+                    last + width
+                };
+            }
+            last
+        });
 
         Thresholds { le: buckets }
     }
-- 
2.43.0

