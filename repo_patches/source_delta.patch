From 6fa09d1a998950767a05111a13a4acb29d61b46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:02 +0000
Subject: [PATCH 01/12] fix: Panel records the time of its last accepted
 observation

A panel with an inactivity limit never updated its last activity time and
stayed inactive for ever once the limit had passed since its creation.
---
 src/instruments/panel.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/instruments/panel.rs b/src/instruments/panel.rs
index da2b2b1..2af6ddc 100644
--- a/src/instruments/panel.rs
+++ b/src/instruments/panel.rs
@@ -350,6 +350,8 @@ where
             return 0;
         }
 
+        self.last_update = Instant::now();
+
         let mut instruments_updated = 0;
 
         self.counter
-- 
2.43.0


From a9e008f7c760ca4079c5d43cc52b12e5f1a3c26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 02/12] fix: Idle components hide also if the activity state is
 not shown

With show_activity_state(false) panels, cockpits and processors ignored
their inactivity limit.
---
 src/cockpit.rs           | 20 ++++++++------------
 src/instruments/panel.rs | 20 ++++++++------------
 src/processor.rs         | 20 ++++++++------------
 3 files changed, 24 insertions(+), 36 deletions(-)

diff --git a/src/cockpit.rs b/src/cockpit.rs
index 7f6625f..f22ddd1 100644
--- a/src/cockpit.rs
+++ b/src/cockpit.rs
@@ -216,19 +216,15 @@ where
         util::put_default_descriptives(self, into, descriptive);
 
         if let Some(d) = self.max_inactivity_duration {
+            let inactive = self.last_activity_at.elapsed() > d;
             if self.show_activity_state {
-                if self.last_activity_at.elapsed() > d {
-                    into.items
-                        .push(("_inactive".to_string(), ItemKind::Boolean(true)));
-                    into.items
-                        .push(("_active".to_string(), ItemKind::Boolean(false)));
-                    return;
-                } else {
-                    into.items
-                        .push(("_inactive".to_string(), ItemKind::Boolean(false)));
-                    into.items
-                        .push(("_active".to_string(), ItemKind::Boolean(true)));
-                }
+                into.items
+                    .push(("_inactive".to_string(), ItemKind::Boolean(inactive)));
+                into.items
+                    .push(("_active".to_string(), ItemKind::Boolean(!inactive)));
+            }
+            if inactive {
+                return;
             }
         };
 
diff --git a/src/instruments/panel.rs b/src/instruments/panel.rs
index 2af6ddc..7412818 100644
--- a/src/instruments/panel.rs
+++ b/src/instruments/panel.rs
@@ -280,19 +280,15 @@ where
     fn put_values_into_snapshot(&self, into: &mut Snapshot, descriptive: bool) {
         util::put_default_descriptives(self, into, descriptive);
         if let Some(d) = self.max_inactivity_duration {
+            let inactive = self.last_update.elapsed() > d;
             if self.show_activity_state {
-                if self.last_update.elapsed() > d {
-                    into.items
-                        .push(("_inactive".to_string(), ItemKind::Boolean(true)));
-                    into.items
-                        .push(("_active".to_string(), ItemKind::Boolean(false)));
-                    return;
-                } else {
-                    into.items
-                        .push(("_inactive".to_string(), ItemKind::Boolean(false)));
-                    into.items
-                        .push(("_active".to_string(), ItemKind::Boolean(true)));
-                }
+                into.items
+                    .push(("_inactive".to_string(), ItemKind::Boolean(inactive)));
+                into.items
+                    .push(("_active".to_string(), ItemKind::Boolean(!inactive)));
+            }
+            if inactive {
+                return;
             }
         };
         self.counter
diff --git a/src/processor.rs b/src/processor.rs
index cad49c7..596c9c5 100644
--- a/src/processor.rs
+++ b/src/processor.rs
@@ -460,19 +460,15 @@ where
         util::put_default_descriptives(self, into, descriptive);
 
         if let Some(d) = self.max_inactivity_duration {
+            let inactive = self.last_activity_at.elapsed() > d;
             if self.show_activity_state {
-                if self.last_activity_at.elapsed() > d {
-                    into.items
-                        .push(("_inactive".to_string(), ItemKind::Boolean(true)));
-                    into.items
-                        .push(("_active".to_string(), ItemKind::Boolean(false)));
-                    return;
-                } else {
-                    into.items
-                        .push(("_inactive".to_string(), ItemKind::Boolean(false)));
-                    into.items
-                        .push(("_active".to_string(), ItemKind::Boolean(true)));
-                }
+                into.items
+                    .push(("_inactive".to_string(), ItemKind::Boolean(inactive)));
+                into.items
+                    .push(("_active".to_string(), ItemKind::Boolean(!inactive)));
+            }
+            if inactive {
+                return;
             }
         };
 
-- 
2.43.0


From bcbf550e96ade298d3aeb071e90e026d55d401a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 03/12] fix: Averages of gauge peaks and bottoms ignore seconds
 without a value

The sums over the seconds in which a value was set were divided by the
length of the tracking window.
---
 src/instruments/gauge/tracking.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/instruments/gauge/tracking.rs b/src/instruments/gauge/tracking.rs
index 6fd58eb..c756149 100644
--- a/src/instruments/gauge/tracking.rs
+++ b/src/instruments/gauge/tracking.rs
@@ -45,6 +45,7 @@ impl BucketsStats {
         let mut sum_peak = 0;
         let mut total_sum = 0;
         let mut total_count = 0;
+        let mut num_buckets = 0u64;
 
         buckets.iter().for_each(
             |Bucket {
@@ -55,6 +56,7 @@ impl BucketsStats {
                 if *count != 0 {
                     total_sum += sum;
                     total_count += count;
+                    num_buckets += 1;
 
                     let (min, max) = min_max;
 
@@ -70,8 +72,8 @@ impl BucketsStats {
 
         if total_count != 0 {
             let avg = (total_sum as f64) / (total_count as f64);
-            let bottom_avg = (sum_bottom as f64) / (buckets.len() as f64);
-            let peak_avg = (sum_peak as f64) / (buckets.len() as f64);
+            let bottom_avg = (sum_bottom as f64) / (num_buckets as f64);
+            let peak_avg = (sum_peak as f64) / (num_buckets as f64);
             Some(BucketsStats {
                 peak,
                 peak_min,
-- 
2.43.0


From e644ff9097d0ddb5ab62736d4ada9e6ad118db7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 04/12] fix: Sums, counts and unit conversions saturate instead
 of overflowing

Large values made counters, gauges, meters and conversions of durations
panic or wrap around and change the sign.
---
 src/instruments/counter.rs                    |  4 ++--
 src/instruments/fundamentals/metrics_meter.rs |  8 +++++--
 src/instruments/gauge/mod.rs                  |  4 ++--
 src/instruments/gauge/tracking.rs             | 12 +++++-----
 src/instruments/histogram.rs                  |  3 ++-
 src/instruments/meter.rs                      |  5 ++--
 src/instruments/mod.rs                        | 12 +++++-----
 .../other_instruments/value_meter.rs          |  3 ++-
 src/observation.rs                            | 23 +++++++++++++++----
 9 files changed, 48 insertions(+), 26 deletions(-)

diff --git a/src/instruments/counter.rs b/src/instruments/counter.rs
index ff08486..929c335 100644
--- a/src/instruments/counter.rs
+++ b/src/instruments/counter.rs
@@ -78,12 +78,12 @@ impl Counter {
 
     /// Increase the stored value by one.
     pub fn inc(&mut self) {
-        self.count += 1;
+        self.count = self.count.saturating_add(1);
     }
 
     /// Increase the stored value by `n`
     pub fn inc_by(&mut self, n: u64) {
-        self.count += n;
+        self.count = self.count.saturating_add(n);
     }
 
     /// Get the current value
diff --git a/src/instruments/fundamentals/metrics_meter.rs b/src/instruments/fundamentals/metrics_meter.rs
index eff6e1d..0b1eef2 100644
--- a/src/instruments/fundamentals/metrics_meter.rs
+++ b/src/instruments/fundamentals/metrics_meter.rs
@@ -68,7 +68,7 @@ impl Meter for StdMeter {
         let mut s = self.data.lock().unwrap();
         self.tick_inner(&mut s);
 
-        s.count += n;
+        s.count = s.count.saturating_add(n);
 
         for i in 0..WINDOW.len() {
             s.ewma[i].update(n as usize);
@@ -226,7 +226,11 @@ impl EWMA {
     }
 
     pub fn update(&self, n: usize) {
-        self.uncounted.fetch_add(n, Ordering::SeqCst);
+        let _ = self
+            .uncounted
+            .fetch_update(Ordering::SeqCst, Ordering::SeqCst, |c| {
+                Some(c.saturating_add(n))
+            });
     }
 
     /// construct new by alpha
diff --git a/src/instruments/gauge/mod.rs b/src/instruments/gauge/mod.rs
index 6f92fef..d2c0013 100644
--- a/src/instruments/gauge/mod.rs
+++ b/src/instruments/gauge/mod.rs
@@ -346,10 +346,10 @@ impl Gauge {
 
     fn next_value(&self, current: Option<i64>, observed: ObservedValue) -> Option<i64> {
         match observed {
-            ObservedValue::ChangedBy(d) => current.map(|c| c + d).or_else(|| Some(d)),
+            ObservedValue::ChangedBy(d) => current.map(|c| c.saturating_add(d)).or_else(|| Some(d)),
             ObservedValue::Duration(time, unit) => {
                 let value = super::duration_to_display_value(time, unit, self.display_time_unit);
-                Some(value as i64)
+                Some(std::cmp::min(value, std::i64::MAX as u64) as i64)
             }
             x => x.convert_to_i64().or_else(|| current),
         }
diff --git a/src/instruments/gauge/tracking.rs b/src/instruments/gauge/tracking.rs
index c756149..3b10d6e 100644
--- a/src/instruments/gauge/tracking.rs
+++ b/src/instruments/gauge/tracking.rs
@@ -3,7 +3,7 @@ use crate::snapshot::Snapshot;
 
 #[derive(Default)]
 pub struct Bucket {
-    pub sum: i64,
+    pub sum: i128,
     pub count: u64,
     pub min_max: (i64, i64),
 }
@@ -16,7 +16,7 @@ impl Bucket {
         } else {
             (v, v)
         };
-        self.sum += v;
+        self.sum += i128::from(v);
         self.count += 1;
     }
 }
@@ -41,8 +41,8 @@ impl BucketsStats {
         let mut peak_min = std::i64::MAX;
         let mut bottom = std::i64::MAX;
         let mut bottom_max = std::i64::MIN;
-        let mut sum_bottom = 0;
-        let mut sum_peak = 0;
+        let mut sum_bottom = 0i128;
+        let mut sum_peak = 0i128;
         let mut total_sum = 0;
         let mut total_count = 0;
         let mut num_buckets = 0u64;
@@ -64,8 +64,8 @@ impl BucketsStats {
                     peak_min = std::cmp::min(peak_min, *max);
                     bottom = std::cmp::min(bottom, *min);
                     bottom_max = std::cmp::max(bottom_max, *min);
-                    sum_bottom += min;
-                    sum_peak += max;
+                    sum_bottom += i128::from(*min);
+                    sum_peak += i128::from(*max);
                 }
             },
         );
diff --git a/src/instruments/histogram.rs b/src/instruments/histogram.rs
index cd195e4..eebb658 100644
--- a/src/instruments/histogram.rs
+++ b/src/instruments/histogram.rs
@@ -256,7 +256,8 @@ impl Updates for Histogram {
         match *with {
             Update::ObservationWithValue(ObservedValue::Duration(time, time_unit), _timestamp) => {
                 let d = super::duration_to_display_value(time, time_unit, self.display_time_unit);
-                self.inner_histogram.update(d as i64);
+                self.inner_histogram
+                    .update(std::cmp::min(d, std::i64::MAX as u64) as i64);
                 self.last_update = Instant::now();
 
                 1
diff --git a/src/instruments/meter.rs b/src/instruments/meter.rs
index 3bdea01..a7e7d34 100644
--- a/src/instruments/meter.rs
+++ b/src/instruments/meter.rs
@@ -256,8 +256,9 @@ impl Updates for Meter {
         match *with {
             Update::ObservationWithValue(_, _) => self.inner_meter.mark(1),
             Update::Observations(n, _) => {
-                if n <= ::std::i64::MAX as u64 && n != 0 {
-                    self.inner_meter.mark(n as i64)
+                if n != 0 {
+                    self.inner_meter
+                        .mark(std::cmp::min(n, std::i64::MAX as u64) as i64)
                 }
             }
             Update::Observation(_) => self.inner_meter.mark(1),
diff --git a/src/instruments/mod.rs b/src/instruments/mod.rs
index 87bf567..e0e573c 100644
--- a/src/instruments/mod.rs
+++ b/src/instruments/mod.rs
@@ -129,17 +129,17 @@ fn duration_to_display_value(time: u64, current_unit: TimeUnit, target_unit: Tim
         (Nanoseconds, Microseconds) => time / 1_000,
         (Nanoseconds, Milliseconds) => time / 1_000_000,
         (Nanoseconds, Seconds) => time / 1_000_000_000,
-        (Microseconds, Nanoseconds) => time * 1_000,
+        (Microseconds, Nanoseconds) => time.saturating_mul(1_000),
         (Microseconds, Microseconds) => time,
         (Microseconds, Milliseconds) => time / 1_000,
         (Microseconds, Seconds) => time / 1_000_000,
-        (Milliseconds, Nanoseconds) => time * 1_000_000,
-        (Milliseconds, Microseconds) => time * 1_000,
+        (Milliseconds, Nanoseconds) => time.saturating_mul(1_000_000),
+        (Milliseconds, Microseconds) => time.saturating_mul(1_000),
         (Milliseconds, Milliseconds) => time,
         (Milliseconds, Seconds) => time / 1_000,
-        (Seconds, Nanoseconds) => time * 1_000_000_000,
-        (Seconds, Microseconds) => time * 1_000_000,
-        (Seconds, Milliseconds) => time * 1_000,
+        (Seconds, Nanoseconds) => time.saturating_mul(1_000_000_000),
+        (Seconds, Microseconds) => time.saturating_mul(1_000_000),
+        (Seconds, Milliseconds) => time.saturating_mul(1_000),
         (Seconds, Seconds) => time,
     }
 }
diff --git a/src/instruments/other_instruments/value_meter.rs b/src/instruments/other_instruments/value_meter.rs
index db3e2b9..12b170c 100644
--- a/src/instruments/other_instruments/value_meter.rs
+++ b/src/instruments/other_instruments/value_meter.rs
@@ -258,7 +258,8 @@ impl Updates for ValueMeter {
                 ObservedValue::Duration(time, unit) => {
                     let v =
                         super::super::duration_to_display_value(time, unit, self.display_time_unit);
-                    self.inner_meter.mark(v as i64);
+                    self.inner_meter
+                        .mark(std::cmp::min(v, std::i64::MAX as u64) as i64);
 
                     1
                 }
diff --git a/src/observation.rs b/src/observation.rs
index 19f93c1..0769336 100644
--- a/src/observation.rs
+++ b/src/observation.rs
@@ -182,7 +182,10 @@ impl From<bool> for ObservedValue {
 
 impl From<Duration> for ObservedValue {
     fn from(v: Duration) -> Self {
-        let nanos = (v.as_secs() * 1_000_000_000) + (v.subsec_nanos() as u64);
+        let nanos = v
+            .as_secs()
+            .saturating_mul(1_000_000_000)
+            .saturating_add(v.subsec_nanos() as u64);
         ObservedValue::Duration(nanos, TimeUnit::Nanoseconds)
     }
 }
@@ -197,16 +200,28 @@ impl From<(Duration, TimeUnit)> for ObservedValue {
     fn from(d: (Duration, TimeUnit)) -> Self {
         match d.1 {
             TimeUnit::Nanoseconds => {
-                let nanos = (d.0.as_secs() * 1_000_000_000) + (d.0.subsec_nanos() as u64);
+                let nanos = d
+                    .0
+                    .as_secs()
+                    .saturating_mul(1_000_000_000)
+                    .saturating_add(d.0.subsec_nanos() as u64);
                 (nanos, d.1).into()
             }
             TimeUnit::Microseconds => {
-                let micros = (d.0.as_secs() * 1_000_000) + (d.0.subsec_nanos() as u64 / 1_000);
+                let micros = d
+                    .0
+                    .as_secs()
+                    .saturating_mul(1_000_000)
+                    .saturating_add(d.0.subsec_nanos() as u64 / 1_000);
 
                 (micros, d.1).into()
             }
             TimeUnit::Milliseconds => {
-                let millis = (d.0.as_secs() * 1_000) + (d.0.subsec_nanos() as u64 / 1_000_000);
+                let millis = d
+                    .0
+                    .as_secs()
+                    .saturating_mul(1_000)
+                    .saturating_add(d.0.subsec_nanos() as u64 / 1_000_000);
                 (millis, d.1).into()
             }
             TimeUnit::Seconds => (d.0.as_secs(), d.1).into(),
-- 
2.43.0


From 1692ea0cc4700a382a1a38e59fac719907f4b9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 05/12] fix: Long durations do not make strategies and switches
 panic

Adding a duration to or subtracting it from the current instant panics if
the result cannot be represented. On a freshly started machine this already
affects durations of a few minutes.
---
 src/instruments/other_instruments/display.rs       |  2 +-
 .../switches/non_occurrence_indicator.rs           |  3 +--
 src/instruments/switches/occurrence_indicator.rs   | 14 ++++++++------
 src/instruments/switches/staircase_timer.rs        | 10 +++++-----
 src/processor.rs                                   | 10 +++++++---
 5 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/instruments/other_instruments/display.rs b/src/instruments/other_instruments/display.rs
index 5879b87..46cbea2 100644
--- a/src/instruments/other_instruments/display.rs
+++ b/src/instruments/other_instruments/display.rs
@@ -191,7 +191,7 @@ impl Updates for DataDisplay {
     fn update(&mut self, update: &Update) -> usize {
         if let Some(value) = update.observed_value().and_then(|v| v.to_item_kind()) {
             if let Some(reset_after) = self.reset_after {
-                self.stay_on_until = Some(Instant::now() + reset_after);
+                self.stay_on_until = Instant::now().checked_add(reset_after);
             }
             self.value = Some(value);
             1
diff --git a/src/instruments/switches/non_occurrence_indicator.rs b/src/instruments/switches/non_occurrence_indicator.rs
index f4f4acc..ebc9cd9 100644
--- a/src/instruments/switches/non_occurrence_indicator.rs
+++ b/src/instruments/switches/non_occurrence_indicator.rs
@@ -208,8 +208,7 @@ impl NonOccurrenceIndicator {
 
     /// Returns the current state
     pub fn state(&self) -> bool {
-        let must_not_have_happened_after = Instant::now() - self.if_not_happened_within;
-        let current_state = self.happened_last <= must_not_have_happened_after;
+        let current_state = self.happened_last.elapsed() >= self.if_not_happened_within;
 
         if self.invert {
             !current_state
diff --git a/src/instruments/switches/occurrence_indicator.rs b/src/instruments/switches/occurrence_indicator.rs
index 2748523..c83c95e 100644
--- a/src/instruments/switches/occurrence_indicator.rs
+++ b/src/instruments/switches/occurrence_indicator.rs
@@ -19,7 +19,7 @@ pub struct OccurrenceIndicator {
     title: Option<String>,
     description: Option<String>,
     if_happened_within: Duration,
-    happened_last: Instant,
+    happened_last: Option<Instant>,
     invert: bool,
     show_inverted: Option<NameAlternation>,
 }
@@ -31,7 +31,7 @@ impl OccurrenceIndicator {
             title: None,
             description: None,
             if_happened_within: Duration::from_secs(60),
-            happened_last: Instant::now() - Duration::from_secs(60),
+            happened_last: None,
             invert: false,
             show_inverted: None,
         }
@@ -102,7 +102,7 @@ impl OccurrenceIndicator {
 
     pub fn set_if_happened_within(&mut self, d: Duration) {
         self.if_happened_within = d;
-        self.happened_last = Instant::now() - d;
+        self.happened_last = None;
     }
 
     pub fn if_happened_within(mut self, d: Duration) -> Self {
@@ -203,8 +203,10 @@ impl OccurrenceIndicator {
 
     /// Returns the current state
     pub fn state(&self) -> bool {
-        let must_have_happened_after = Instant::now() - self.if_happened_within;
-        let current_state = self.happened_last > must_have_happened_after;
+        let current_state = self
+            .happened_last
+            .map(|happened_last| happened_last.elapsed() < self.if_happened_within)
+            .unwrap_or(false);
 
         if self.invert {
             !current_state
@@ -230,7 +232,7 @@ impl PutsSnapshot for OccurrenceIndicator {
 
 impl Updates for OccurrenceIndicator {
     fn update(&mut self, _: &Update) -> usize {
-        self.happened_last = Instant::now();
+        self.happened_last = Some(Instant::now());
         1
     }
 }
diff --git a/src/instruments/switches/staircase_timer.rs b/src/instruments/switches/staircase_timer.rs
index 0ab2a8c..b60c68d 100644
--- a/src/instruments/switches/staircase_timer.rs
+++ b/src/instruments/switches/staircase_timer.rs
@@ -27,7 +27,7 @@ pub struct StaircaseTimer {
     description: Option<String>,
     switch_off_after: Duration,
     invert: bool,
-    stay_on_until: Option<Instant>,
+    last_triggered: Option<Instant>,
     show_inverted: Option<NameAlternation>,
 }
 
@@ -39,7 +39,7 @@ impl StaircaseTimer {
             description: None,
             switch_off_after: Duration::from_secs(60),
             invert: false,
-            stay_on_until: None,
+            last_triggered: None,
             show_inverted: None,
         }
     }
@@ -206,8 +206,8 @@ impl StaircaseTimer {
 
     /// Returns the current state
     pub fn state(&self) -> bool {
-        let value = if let Some(stay_on_until) = self.stay_on_until {
-            stay_on_until >= Instant::now()
+        let value = if let Some(last_triggered) = self.last_triggered {
+            last_triggered.elapsed() <= self.switch_off_after
         } else {
             false
         };
@@ -236,7 +236,7 @@ impl PutsSnapshot for StaircaseTimer {
 
 impl Updates for StaircaseTimer {
     fn update(&mut self, _: &Update) -> usize {
-        self.stay_on_until = Some(Instant::now() + self.switch_off_after);
+        self.last_triggered = Some(Instant::now());
         1
     }
 }
diff --git a/src/processor.rs b/src/processor.rs
index 596c9c5..2497906 100644
--- a/src/processor.rs
+++ b/src/processor.rs
@@ -127,9 +127,13 @@ impl ProcessingStrategy {
             ProcessingStrategy::DropOlderThan {
                 max_age,
                 drop_deltas,
-            } => ProcessingDecider::DropBeforeDeadline {
-                drop_if_older_than: Instant::now() - max_age,
-                drop_deltas,
+            } => match Instant::now().checked_sub(max_age) {
+                Some(drop_if_older_than) => ProcessingDecider::DropBeforeDeadline {
+                    drop_if_older_than,
+                    drop_deltas,
+                },
+                // Nothing can be that old
+                None => ProcessingDecider::ProcessAll,
             },
         }
     }
-- 
2.43.0


From cff9efc9fcdda27ccf52907095fdec88e8e483fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 06/12] fix: The inverted state of a switch is derived from the
 state shown

The state was evaluated twice so that both values could be the same if time
ran out in between.
---
 src/instruments/switches/non_occurrence_indicator.rs | 5 +++--
 src/instruments/switches/occurrence_indicator.rs     | 5 +++--
 src/instruments/switches/staircase_timer.rs          | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/instruments/switches/non_occurrence_indicator.rs b/src/instruments/switches/non_occurrence_indicator.rs
index ebc9cd9..cae0e99 100644
--- a/src/instruments/switches/non_occurrence_indicator.rs
+++ b/src/instruments/switches/non_occurrence_indicator.rs
@@ -224,10 +224,11 @@ impl PutsSnapshot for NonOccurrenceIndicator {
     fn put_snapshot(&self, into: &mut Snapshot, descriptive: bool) {
         util::put_postfixed_descriptives(self, &self.name, into, descriptive);
 
-        into.items.push((self.name.clone(), self.state().into()));
+        let state = self.state();
+        into.items.push((self.name.clone(), state.into()));
         if let Some(alternation) = &self.show_inverted {
             let label = alternation.adjust_name(&self.name);
-            into.items.push((label.into(), (!self.state()).into()));
+            into.items.push((label.into(), (!state).into()));
         }
     }
 }
diff --git a/src/instruments/switches/occurrence_indicator.rs b/src/instruments/switches/occurrence_indicator.rs
index c83c95e..adecda3 100644
--- a/src/instruments/switches/occurrence_indicator.rs
+++ b/src/instruments/switches/occurrence_indicator.rs
@@ -222,10 +222,11 @@ impl PutsSnapshot for OccurrenceIndicator {
     fn put_snapshot(&self, into: &mut Snapshot, descriptive: bool) {
         util::put_postfixed_descriptives(self, &self.name, into, descriptive);
 
-        into.items.push((self.name.clone(), self.state().into()));
+        let state = self.state();
+        into.items.push((self.name.clone(), state.into()));
         if let Some(alternation) = &self.show_inverted {
             let label = alternation.adjust_name(&self.name);
-            into.items.push((label.into(), (!self.state()).into()));
+            into.items.push((label.into(), (!state).into()));
         }
     }
 }
diff --git a/src/instruments/switches/staircase_timer.rs b/src/instruments/switches/staircase_timer.rs
index b60c68d..01a6ca5 100644
--- a/src/instruments/switches/staircase_timer.rs
+++ b/src/instruments/switches/staircase_timer.rs
@@ -226,10 +226,11 @@ impl PutsSnapshot for StaircaseTimer {
     fn put_snapshot(&self, into: &mut Snapshot, descriptive: bool) {
         util::put_postfixed_descriptives(self, &self.name, into, descriptive);
 
-        into.items.push((self.name.clone(), self.state().into()));
+        let state = self.state();
+        into.items.push((self.name.clone(), state.into()));
         if let Some(alternation) = &self.show_inverted {
             let label = alternation.adjust_name(&self.name);
-            into.items.push((label.into(), (!self.state()).into()));
+            into.items.push((label.into(), (!state).into()));
         }
     }
 }
-- 
2.43.0


From 2aef467680a904926112aacaa8147ef33c5b7c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 07/12] fix: Only activity switches off the inactivity alarm of
 a driver

Every collection counted as activity so that the alarm never went on.
---
 src/driver.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/driver.rs b/src/driver.rs
index 7c53257..962913e 100644
--- a/src/driver.rs
+++ b/src/driver.rs
@@ -726,7 +726,9 @@ impl DriverInstruments {
                     now,
                 ));
         }
-        self.inactivity_alarm.update(&Update::Observation(now));
+        if outcome.something_happened() {
+            self.inactivity_alarm.update(&Update::Observation(now));
+        }
     }
 
     pub fn update_post_snapshot(&mut self, snapshot_started: Instant) {
-- 
2.43.0


From a2f18499216b76b6cf102c111c9232c6abd00562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 08/12] fix: Negative values do not corrupt count and rates of
 a value meter

A negative value decreased the count and was added to the rates as a huge
positive number.
---
 src/instruments/other_instruments/value_meter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instruments/other_instruments/value_meter.rs b/src/instruments/other_instruments/value_meter.rs
index 12b170c..e6021eb 100644
--- a/src/instruments/other_instruments/value_meter.rs
+++ b/src/instruments/other_instruments/value_meter.rs
@@ -264,7 +264,7 @@ impl Updates for ValueMeter {
                     1
                 }
                 other => {
-                    if let Some(v) = other.convert_to_i64() {
+                    if let Some(v) = other.convert_to_i64().filter(|v| *v >= 0) {
                         self.inner_meter.mark(v);
                         1
                     } else {
-- 
2.43.0


From 90fb3f33a5d5e19e6da194db455375642274364c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 09/12] fix: A negative number found is not a duration

It was turned into a duration of several hundred years.
---
 src/snapshot.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/snapshot.rs b/src/snapshot.rs
index 0a70e92..7ba154c 100644
--- a/src/snapshot.rs
+++ b/src/snapshot.rs
@@ -245,7 +245,7 @@ impl<'a> FindItem<'a> {
         match self {
             FindItem::Found(ref v) => match v {
                 ItemKind::UInt(v) => FindDurationItem::Duration(Duration::from_nanos(*v)),
-                ItemKind::Int(v) => FindDurationItem::Duration(Duration::from_nanos(*v as u64)),
+                ItemKind::Int(v) if *v >= 0 => FindDurationItem::Duration(Duration::from_nanos(*v as u64)),
                 _ => FindDurationItem::NotADuration,
             },
             FindItem::NotFound => FindDurationItem::NotFound,
@@ -256,7 +256,7 @@ impl<'a> FindItem<'a> {
         match self {
             FindItem::Found(ref v) => match v {
                 ItemKind::UInt(v) => FindDurationItem::Duration(Duration::from_micros(*v)),
-                ItemKind::Int(v) => FindDurationItem::Duration(Duration::from_micros(*v as u64)),
+                ItemKind::Int(v) if *v >= 0 => FindDurationItem::Duration(Duration::from_micros(*v as u64)),
                 _ => FindDurationItem::NotADuration,
             },
             FindItem::NotFound => FindDurationItem::NotFound,
@@ -267,7 +267,7 @@ impl<'a> FindItem<'a> {
         match self {
             FindItem::Found(ref v) => match v {
                 ItemKind::UInt(v) => FindDurationItem::Duration(Duration::from_millis(*v)),
-                ItemKind::Int(v) => FindDurationItem::Duration(Duration::from_millis(*v as u64)),
+                ItemKind::Int(v) if *v >= 0 => FindDurationItem::Duration(Duration::from_millis(*v as u64)),
                 _ => FindDurationItem::NotADuration,
             },
             FindItem::NotFound => FindDurationItem::NotFound,
@@ -278,7 +278,7 @@ impl<'a> FindItem<'a> {
         match self {
             FindItem::Found(ref v) => match v {
                 ItemKind::UInt(v) => FindDurationItem::Duration(Duration::from_secs(*v)),
-                ItemKind::Int(v) => FindDurationItem::Duration(Duration::from_secs(*v as u64)),
+                ItemKind::Int(v) if *v >= 0 => FindDurationItem::Duration(Duration::from_secs(*v as u64)),
                 _ => FindDurationItem::NotADuration,
             },
             FindItem::NotFound => FindDurationItem::NotFound,
-- 
2.43.0


From e9b2343be42d138e85e1f97164e40ab39fd19b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 10/12] fix: Processing messages returns when the queue is
 empty

It polled the empty queue until the given maximum was reached.
---
 src/processor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/processor.rs b/src/processor.rs
index 2497906..5bbe79a 100644
--- a/src/processor.rs
+++ b/src/processor.rs
@@ -557,7 +557,7 @@ where
                     }
                     processed += 1;
                 }
-                Err(TryRecvError::Empty) => {}
+                Err(TryRecvError::Empty) => break,
                 Err(TryRecvError::Disconnected) => {
                     let name = self.name.as_deref().unwrap_or_else(|| "<no name>");
                     util::log_warning(format!(
-- 
2.43.0


From af7a8eda735acc91cbfd4d82ced1be8ebeadd716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:39 +0000
Subject: [PATCH 11/12] fix: The smallest integer can be rendered as JSON

The conversion of the json crate negates the number, which overflows.
---
 src/snapshot.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/snapshot.rs b/src/snapshot.rs
index 7ba154c..d30a3b9 100644
--- a/src/snapshot.rs
+++ b/src/snapshot.rs
@@ -353,7 +353,12 @@ impl ItemKind {
             }
             ItemKind::Float(v) => v.into(),
             ItemKind::UInt(v) => v.into(),
-            ItemKind::Int(v) => v.into(),
+            // `From<i64>` of the json crate overflows for the smallest value
+            ItemKind::Int(v) => JsonValue::Number(json::number::Number::from_parts(
+                v >= 0,
+                v.wrapping_abs() as u64,
+                0,
+            )),
             ItemKind::Snapshot(ref snapshot) => snapshot.to_json_value(config),
         }
     }
-- 
2.43.0


From 6ead2a28d0203a23b048865f3f0121ddad644d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:39 +0000
Subject: [PATCH 12/12] fix: Observations without a usable value do not count
 in gauge statistics

A value that cannot be converted leaves the gauge as it is but the current
value was recorded once more in the tracking window.
---
 src/instruments/gauge/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instruments/gauge/mod.rs b/src/instruments/gauge/mod.rs
index d2c0013..cbde794 100644
--- a/src/instruments/gauge/mod.rs
+++ b/src/instruments/gauge/mod.rs
@@ -351,7 +351,7 @@ impl Gauge {
                 let value = super::duration_to_display_value(time, unit, self.display_time_unit);
                 Some(std::cmp::min(value, std::i64::MAX as u64) as i64)
             }
-            x => x.convert_to_i64().or_else(|| current),
+            x => x.convert_to_i64(),
         }
     }
 
-- 
2.43.0

