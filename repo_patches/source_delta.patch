From 82b218479304c6563aa16bdf0feaf18ee9b11361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:57 +0000
Subject: [PATCH 01/36] fix: lazy union forgets the rest of the left operand
 when the right one ends first

---
 src/iter/union.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iter/union.rs b/src/iter/union.rs
index b57d3b1..023950f 100644
--- a/src/iter/union.rs
+++ b/src/iter/union.rs
@@ -186,8 +186,8 @@ impl<I,J> Iterator for IterUnion<I,J>
                 UnionState::WaitJ => {
                     match self.j.next() {
                         None => {
-                            /* end of the iterator over i...*/
-                            self.state = UnionState::OnlyJ;
+                            /* end of the iterator over j...*/
+                            self.state = UnionState::OnlyI;
                             return Some(self.tmp);
                         },
                         Some(j) if j.upper < self.tmp.lower.just_before() => {
-- 
2.43.0


From 388e678791c71650ee04f64447b4362560ac5207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:58 +0000
Subject: [PATCH 02/36] fix: intersection iterator yields inverted parts for
 adjacent operands

---
 src/iter/intersect.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/iter/intersect.rs b/src/iter/intersect.rs
index 8aba6c9..92426b5 100644
--- a/src/iter/intersect.rs
+++ b/src/iter/intersect.rs
@@ -112,7 +112,7 @@ impl<I,J> Iterator for IterIntersection<I,J>
                     match (self.i.next(), self.j.next()) {
                         (None,_)|(_,None) => { self.state = InterState::End; return None; }
 
-                        (Some(i), Some(j)) if i.upper < j.lower.just_before() => {
+                        (Some(i), Some(j)) if i.upper < j.lower => {
                             // i:       [------------------]
                             // j:                                  [--------]
                             //=>tmp:                               [--------]
@@ -120,7 +120,7 @@ impl<I,J> Iterator for IterIntersection<I,J>
                             self.tmp=j;
                         },
 
-                        (Some(i), Some(j)) if j.upper < i.lower.just_before()  => {
+                        (Some(i), Some(j)) if j.upper < i.lower  => {
                             // i:                          [------------------]
                             // j:          [--------]
                             self.state = InterState::WaitJ;
@@ -149,11 +149,11 @@ impl<I,J> Iterator for IterIntersection<I,J>
                             self.state = InterState::End;
                             return None;
                         },
-                        Some(i) if i.upper < self.tmp.lower.just_before() => {
+                        Some(i) if i.upper < self.tmp.lower => {
                             // i:       [------------------]
                             // tmp:                                [--------]
                         },
-                        Some(i) if self.tmp.upper < i.lower.just_before()  => {
+                        Some(i) if self.tmp.upper < i.lower  => {
                             // i:                          [------------------]
                             // tmp:        [--------]
                             self.state = InterState::WaitJ;
@@ -182,11 +182,11 @@ impl<I,J> Iterator for IterIntersection<I,J>
                             self.state = InterState::End;
                             return None;
                         },
-                        Some(j) if j.upper < self.tmp.lower.just_before() => {
+                        Some(j) if j.upper < self.tmp.lower => {
                             // tmp:                                [--------]
                             // j:       [------------------]
                         },
-                        Some(j) if self.tmp.upper < j.lower.just_before()  => {
+                        Some(j) if self.tmp.upper < j.lower  => {
                             // tmp:        [--------]
                             // j:                          [------------------]
                             self.state = InterState::WaitI;
-- 
2.43.0


From f586715979002b916216e9347d892fc3e5c14e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:59 +0000
Subject: [PATCH 03/36] fix: disjoint interval intersection is not the empty
 interval

---
 src/ops/intersect.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/ops/intersect.rs b/src/ops/intersect.rs
index 46415da..3ea8211 100644
--- a/src/ops/intersect.rs
+++ b/src/ops/intersect.rs
@@ -26,8 +26,7 @@ impl<T:TimePoint,TW> BitAndAssign<TW> for TimeInterval<T>
 {
     #[inline]
     fn bitand_assign(&mut self, tw: TW) {
-        if self.lower < tw.lower_bound() { self.lower = tw.lower_bound(); }
-        if self.upper > tw.upper_bound() { self.upper = tw.upper_bound(); }
+        *self = (&*self).bitand(tw);
     }
 }
 
@@ -48,10 +47,8 @@ impl<T:TimePoint,TW> BitAnd<TW> for &TimeInterval<T>
     #[inline]
     fn bitand(self, tw: TW) -> Self::Output {
         let i = tw.into();
-        TimeInterval {
-            lower: self.lower.max(i.lower),
-            upper: self.upper.min(i.upper)
-        }
+        // the bounds are inverted if there is no common instant
+        TimeInterval::new(self.lower.max(i.lower), self.upper.min(i.upper))
     }
 }
 
-- 
2.43.0


From 639498d6dc4f92a76c333c272402d502bde93caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:00 +0000
Subject: [PATCH 04/36] fix: collecting empty intervals stores empty parts in a
 time set

---
 src/wins/timeset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wins/timeset.rs b/src/wins/timeset.rs
index 7890ae3..729337d 100644
--- a/src/wins/timeset.rs
+++ b/src/wins/timeset.rs
@@ -124,7 +124,7 @@ impl<T:TimePoint> FromIterator<TimeInterval<T>> for TimeSet<T>
 {
     fn from_iter<I: IntoIterator<Item=TimeInterval<T>>>(iter: I) -> Self
     {
-        let mut iter = iter.into_iter();
+        let mut iter = iter.into_iter().filter(|i| !i.is_empty());
         match iter.next() {
             None => Self::empty(),
             Some(first) => iter.fold(first.into(), |mut r, i| {
-- 
2.43.0


From 47ec61979abd90f313782f1ca949fb438adbd20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:01 +0000
Subject: [PATCH 05/36] fix: time set singleton of an infinite date holds an
 empty part

---
 src/wins/timeset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wins/timeset.rs b/src/wins/timeset.rs
index 729337d..53d48c6 100644
--- a/src/wins/timeset.rs
+++ b/src/wins/timeset.rs
@@ -43,7 +43,7 @@ impl<T:TimePoint> TimeSet<T>
     /// Retuns a timeset composed of the convex interval `[t,t]`
     #[inline]
     pub fn singleton(t: T) -> Self {
-        Self(vec![TimeInterval::singleton(t)])
+        TimeInterval::singleton(t).into()
     }
 
     /// The empty set
-- 
2.43.0


From e56882237cc4c5eeba7b9a33be01754648a1cd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:30 +0000
Subject: [PATCH 06/36] fix: the empty window is reported bounded, full or as
 an inverted interval

---
 src/wins/format.rs       | 5 ++++-
 src/wins/mod.rs          | 2 +-
 src/wins/timeinterval.rs | 5 +++--
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/wins/format.rs b/src/wins/format.rs
index e97c111..9e84515 100644
--- a/src/wins/format.rs
+++ b/src/wins/format.rs
@@ -199,7 +199,10 @@ impl<T:TimePoint+fmt::Debug> fmt::Debug for TimeInterval<T>
     #[allow(clippy::collapsible_else_if)]
     fn fmt(&self, formatter: &mut fmt::Formatter) -> fmt::Result
     {
-        if self.is_low_bounded() {
+        if self.is_empty() {
+            write!(formatter, "{{}}")
+
+        } else if self.is_low_bounded() {
             if self.is_up_bounded() {
                 if self.lower == self.upper {
                     write!(formatter, "{{{:?}}}", self.lower)
diff --git a/src/wins/mod.rs b/src/wins/mod.rs
index 8acaf6d..73a72d7 100644
--- a/src/wins/mod.rs
+++ b/src/wins/mod.rs
@@ -74,7 +74,7 @@ pub trait TimeWindow : TimeBounds {
 
     #[inline]
     fn is_all(&self) -> bool {
-        self.is_convex() && !self.is_low_bounded() && !self.is_up_bounded()
+        !self.is_empty() && self.is_convex() && !self.is_low_bounded() && !self.is_up_bounded()
     }
 
     /// Checks if this time window is an interval
diff --git a/src/wins/timeinterval.rs b/src/wins/timeinterval.rs
index 9c21513..fd31588 100644
--- a/src/wins/timeinterval.rs
+++ b/src/wins/timeinterval.rs
@@ -184,8 +184,9 @@ impl<T:TimePoint> TimeBounds for TimeInterval<T>
     #[inline] fn is_empty(&self) -> bool { self.lower.is_future_infinite() }
     #[inline] fn is_singleton(&self) -> bool { self.lower == self.upper }
     #[inline] fn is_bounded(&self) -> bool { self.is_low_bounded() && self.is_up_bounded() }
-    #[inline] fn is_low_bounded(&self) -> bool { !self.lower.is_past_infinite() }
-    #[inline] fn is_up_bounded(&self) -> bool { !self.upper.is_future_infinite() }
+    // if the interval is empty, none of its bounds is finite
+    #[inline] fn is_low_bounded(&self) -> bool { self.lower.is_finite() }
+    #[inline] fn is_up_bounded(&self) -> bool { self.upper.is_finite() }
     #[inline] fn lower_bound(&self) -> Self::TimePoint { self.lower }
     #[inline] fn upper_bound(&self) -> Self::TimePoint { self.upper }
 }
-- 
2.43.0


From 342e473236e452ed5340b6060bd5c662778a7cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:31 +0000
Subject: [PATCH 07/36] fix: a time set does not contain the empty interval

---
 src/relns/contain.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/relns/contain.rs b/src/relns/contain.rs
index 16a9f72..2d1bad5 100644
--- a/src/relns/contain.rs
+++ b/src/relns/contain.rs
@@ -22,7 +22,8 @@ impl<T:TimePoint,TW> TimeContaining<TW> for TimeSet<T>
     #[inline]
     fn contains(&self, rhs: &TW) -> bool
     {
-        self.0.iter()
+        // the empty window is contained in any window
+        rhs.is_empty() || self.0.iter()
             .find(|ts| ts.upper_bound() >= rhs.lower_bound())
             .map(|ts| ts.contains(rhs))
             .unwrap_or(false)
-- 
2.43.0


From 069ef4b14fae8875eb1f89dde3bd52107229aa8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:32 +0000
Subject: [PATCH 08/36] fix: the empty interval overlaps unbounded windows

---
 src/relns/overlap.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/relns/overlap.rs b/src/relns/overlap.rs
index 5f37e78..4ff4b4c 100644
--- a/src/relns/overlap.rs
+++ b/src/relns/overlap.rs
@@ -14,7 +14,8 @@ impl<TW1:TimeConvex,TW2:TimeConvex> TimeOverlapping<TW2> for TW1
 {
     #[inline]
     fn overlaps(&self, rhs: &TW2) -> bool {
-        self.lower_bound() <= rhs.upper_bound() && rhs.lower_bound() <= self.upper_bound()
+        !self.is_empty() && !rhs.is_empty()
+            && self.lower_bound() <= rhs.upper_bound() && rhs.lower_bound() <= self.upper_bound()
     }
 }
 
@@ -33,7 +34,7 @@ impl<T:TimePoint, TW> TimeOverlapping<TW> for TimeSet<T>
     #[inline]
     fn overlaps(&self, rhs: &TW) -> bool
     {
-        self.0.iter()
+        !rhs.is_empty() && self.0.iter()
             .find(|ts| ts.upper_bound() >= rhs.lower_bound())
             .map(|ts| ts.lower_bound() <= rhs.upper_bound())
             .unwrap_or(false)
-- 
2.43.0


From 7e8328d2d0df4b4446dd833f7987fb2b4bf6d7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:33 +0000
Subject: [PATCH 09/36] fix: size hints of lazy union and complement are below
 the real count

---
 src/iter/compl.rs | 10 ++++++----
 src/iter/union.rs |  4 +++-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/iter/compl.rs b/src/iter/compl.rs
index 84205a9..46efe53 100644
--- a/src/iter/compl.rs
+++ b/src/iter/compl.rs
@@ -90,11 +90,13 @@ impl<I:TimeConvexIterator> Iterator for IterComplementary<I>
 
     fn size_hint(&self) -> (usize, Option<usize>)
     {
-        let (min,max) = self.iter.size_hint();
-        if self.lower.is_finite() {
-            (min.saturating_sub(1), max)
+        if self.lower.is_future_infinite() {
+            // the end of time is already reached
+            (0, Some(0))
         } else {
-            (min.saturating_sub(1), max.map(|i| i + 1))
+            // at most one part before each convex and a last one after all of them
+            let (min,max) = self.iter.size_hint();
+            (min.saturating_sub(1), max.map(|i| i.saturating_add(1)))
         }
     }
 }
diff --git a/src/iter/union.rs b/src/iter/union.rs
index 023950f..5eed0e5 100644
--- a/src/iter/union.rs
+++ b/src/iter/union.rs
@@ -234,9 +234,11 @@ impl<I,J> Iterator for IterUnion<I,J>
             UnionState::OnlyJ => { self.j.size_hint() }
             UnionState::End => { (0, Some(0)) }
             _ => {
+                // one more part is kept in tmp if the computation has started
+                let tmp = if matches!(self.state, UnionState::Init) { 0 } else { 1 };
                 if let (_,Some(imax)) = self.i.size_hint() {
                     if let (_,Some(jmax)) = self.j.size_hint() {
-                        return (0, Some(imax.saturating_add(jmax)));
+                        return (0, Some(imax.saturating_add(jmax).saturating_add(tmp)));
                     }
                 }
                 (0, None)
-- 
2.43.0


From 75ce91733256f23da646ff24bb8be7d1afcafdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:30 +0000
Subject: [PATCH 10/36] fix: in-place translation panics when the result is a
 single date

---
 src/ops/transl.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ops/transl.rs b/src/ops/transl.rs
index e2a84ca..291239a 100644
--- a/src/ops/transl.rs
+++ b/src/ops/transl.rs
@@ -33,7 +33,7 @@ impl<T> AddAssign<TimeValue> for TimeInterval<T>
     fn add_assign(&mut self, other: TimeValue) {
         self.lower += other;
         self.upper += other;
-        assert!( (self.lower != self.upper) || !self.lower.is_finite() );
+        assert!( (self.lower != self.upper) || self.lower.is_finite() );
     }
 }
 
@@ -44,7 +44,7 @@ impl<T> SubAssign<TimeValue> for TimeInterval<T>
     fn sub_assign(&mut self, other: TimeValue) {
         self.lower -= other;
         self.upper -= other;
-        assert!( (self.lower != self.upper) || !self.lower.is_finite() );
+        assert!( (self.lower != self.upper) || self.lower.is_finite() );
     }
 }
 
@@ -91,7 +91,7 @@ impl<T> AddAssign<TimeSpan> for TimeInterval<T>
     fn add_assign(&mut self, other: TimeSpan) {
         self.lower += other.lower;
         self.upper += other.upper;
-        assert!( (self.lower != self.upper) || !self.lower.is_finite() );
+        assert!( (self.lower != self.upper) || self.lower.is_finite() );
     }
 }
 
@@ -102,7 +102,7 @@ impl<T> SubAssign<TimeSpan> for TimeInterval<T>
     fn sub_assign(&mut self, other: TimeSpan) {
         self.lower -= other.upper;
         self.upper -= other.lower;
-        assert!( (self.lower != self.upper) || !self.lower.is_finite() );
+        assert!( (self.lower != self.upper) || self.lower.is_finite() );
     }
 }
 
-- 
2.43.0


From 210a041830d35bd66ffa10845e386a38b58073f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:31 +0000
Subject: [PATCH 11/36] fix: translating an empty window panics

---
 src/ops/transl.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/ops/transl.rs b/src/ops/transl.rs
index 291239a..11810ce 100644
--- a/src/ops/transl.rs
+++ b/src/ops/transl.rs
@@ -9,6 +9,7 @@ impl<T> Add<TimeValue> for TimeInterval<T>
 {
     type Output = Self;
     #[inline] fn add(self, other: TimeValue) -> Self::Output {
+        if self.is_empty() { return TimeInterval::empty(); }
         let tw = TimeInterval::new(self.lower + other, self.upper + other);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -20,6 +21,7 @@ impl<T> Sub<TimeValue> for TimeInterval<T>
 {
     type Output = Self;
     #[inline] fn sub(self, other: TimeValue) -> Self::Output {
+        if self.is_empty() { return TimeInterval::empty(); }
         let tw = TimeInterval::new(self.lower - other, self.upper - other);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -31,6 +33,7 @@ impl<T> AddAssign<TimeValue> for TimeInterval<T>
 {
     #[inline]
     fn add_assign(&mut self, other: TimeValue) {
+        if self.is_empty() { return; }
         self.lower += other;
         self.upper += other;
         assert!( (self.lower != self.upper) || self.lower.is_finite() );
@@ -42,6 +45,7 @@ impl<T> SubAssign<TimeValue> for TimeInterval<T>
 {
     #[inline]
     fn sub_assign(&mut self, other: TimeValue) {
+        if self.is_empty() { return; }
         self.lower -= other;
         self.upper -= other;
         assert!( (self.lower != self.upper) || self.lower.is_finite() );
@@ -67,6 +71,7 @@ impl<T> Add<TimeSpan> for TimeInterval<T>
 {
     type Output = Self;
     #[inline] fn add(self, other: TimeSpan) -> Self::Output {
+        if self.is_empty() || other.is_empty() { return TimeInterval::empty(); }
         let tw = TimeInterval::new(self.lower + other.lower, self.upper + other.upper);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -78,6 +83,7 @@ impl<T> Sub<TimeSpan> for TimeInterval<T>
 {
     type Output = Self;
     #[inline] fn sub(self, other: TimeSpan) -> Self::Output {
+        if self.is_empty() || other.is_empty() { return TimeInterval::empty(); }
         let tw = TimeInterval::new(self.lower - other.upper, self.upper - other.lower);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -89,6 +95,7 @@ impl<T> AddAssign<TimeSpan> for TimeInterval<T>
 {
     #[inline]
     fn add_assign(&mut self, other: TimeSpan) {
+        if self.is_empty() || other.is_empty() { *self = TimeInterval::empty(); return; }
         self.lower += other.lower;
         self.upper += other.upper;
         assert!( (self.lower != self.upper) || self.lower.is_finite() );
@@ -100,6 +107,7 @@ impl<T> SubAssign<TimeSpan> for TimeInterval<T>
 {
     #[inline]
     fn sub_assign(&mut self, other: TimeSpan) {
+        if self.is_empty() || other.is_empty() { *self = TimeInterval::empty(); return; }
         self.lower -= other.upper;
         self.upper -= other.lower;
         assert!( (self.lower != self.upper) || self.lower.is_finite() );
@@ -110,6 +118,7 @@ impl Add<TimeSpan> for Timestamp {
     type Output = TimeSlot;
     #[inline]
     fn add(self, other: TimeSpan) -> Self::Output {
+        if other.is_empty() { return TimeInterval::empty(); }
         let tw = TimeSlot::new(self + other.lower, self + other.upper);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -120,6 +129,7 @@ impl Sub<TimeSpan> for Timestamp {
     type Output = TimeSlot;
     #[inline]
     fn sub(self, other: TimeSpan) -> Self::Output {
+        if other.is_empty() { return TimeInterval::empty(); }
         let tw = TimeSlot::new(self - other.upper, self - other.lower);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -142,6 +152,7 @@ impl Sub for TimeSlot {
     type Output = TimeSpan;
     #[inline]
     fn sub(self, other: Self) -> Self::Output {
+        if self.is_empty() || other.is_empty() { return TimeInterval::empty(); }
         let tw = TimeInterval::new(self.lower - other.upper,self.upper - other.lower);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -152,6 +163,7 @@ impl Sub<Timestamp> for TimeSlot {
     type Output = TimeSpan;
     #[inline]
     fn sub(self, other: Timestamp) -> Self::Output {
+        if self.is_empty() { return TimeInterval::empty(); }
         let tw = TimeInterval::new(self.lower - other,self.upper - other);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -162,6 +174,7 @@ impl Sub<TimeSlot> for Timestamp {
     type Output = TimeSpan;
     #[inline]
     fn sub(self, other: TimeSlot) -> Self::Output {
+        if other.is_empty() { return TimeInterval::empty(); }
         let tw = TimeInterval::new(self - other.upper,self - other.lower);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
-- 
2.43.0


From 96649ce91e054bb69bbd72250f91aa7d18bb4e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:32 +0000
Subject: [PATCH 12/36] fix: product of a duration by a huge integer ignores
 the sign of the duration

---
 src/ops/scaling.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/ops/scaling.rs b/src/ops/scaling.rs
index 611abde..f6ed731 100644
--- a/src/ops/scaling.rs
+++ b/src/ops/scaling.rs
@@ -35,13 +35,9 @@ macro_rules! timevalscalingbig {
         impl Mul<$time> for TimeValue {
             type Output = Self;
             #[inline] fn mul(self, n: $time) -> Self::Output {
-                if n > INFINITE_TIME_VALUE as $time {
-                    TimeValue::INFINITE
-                } else if n < -INFINITE_TIME_VALUE as $time {
-                    -TimeValue::INFINITE
-                } else {
-                    TimeValue::from_ticks(self.0.saturating_mul(n as i64))
-                }
+                // beyond the infinite value, any product but zero is infinite
+                let n = n.clamp(-INFINITE_TIME_VALUE as $time, INFINITE_TIME_VALUE as $time);
+                TimeValue::from_ticks(self.0.saturating_mul(n as i64))
             }
         }
         impl Div<$time> for TimeValue {
@@ -67,11 +63,9 @@ macro_rules! timevalscalingubig {
         impl Mul<$time> for TimeValue {
             type Output = Self;
             #[inline] fn mul(self, n: $time) -> Self::Output {
-                if n > INFINITE_TIME_VALUE as $time {
-                    TimeValue::INFINITE
-                } else {
-                    TimeValue::from_ticks(self.0.saturating_mul(n as i64))
-                }
+                // beyond the infinite value, any product but zero is infinite
+                let n = n.min(INFINITE_TIME_VALUE as $time);
+                TimeValue::from_ticks(self.0.saturating_mul(n as i64))
             }
         }
         impl Div<$time> for TimeValue {
-- 
2.43.0


From 572488b235d0a49aac8e7a2709285431e7d10547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:34 +0000
Subject: [PATCH 13/36] fix: dividing an infinite duration gives a finite one

---
 src/ops/scaling.rs | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/ops/scaling.rs b/src/ops/scaling.rs
index f6ed731..f2f48e8 100644
--- a/src/ops/scaling.rs
+++ b/src/ops/scaling.rs
@@ -3,6 +3,19 @@ use std::ops::{Div, DivAssign, Mul, MulAssign};
 
 //-------------- TIMEVALUE SCALING -----------------------------
 
+// An infinite duration remains infinite when divided
+#[inline]
+fn div_ticks(t: TimeValue, n: i64) -> TimeValue
+{
+    if t.is_finite() || n == 0 {
+        TimeValue::from_ticks(t.0.saturating_div(n))
+    } else if n < 0 {
+        -t
+    } else {
+        t
+    }
+}
+
 // GROUP 1: scale factor is always less than i64::MAX (abs value)
 macro_rules! timevalscalingsmall {
     ($scale: ty) => {
@@ -15,7 +28,7 @@ macro_rules! timevalscalingsmall {
         impl Div<$scale> for TimeValue {
             type Output = Self;
             #[inline] fn div(self, n: $scale) -> Self::Output {
-                TimeValue::from_ticks(self.0.saturating_div(n as i64))
+                div_ticks(self, n as i64)
             }
         }
     };
@@ -43,11 +56,9 @@ macro_rules! timevalscalingbig {
         impl Div<$time> for TimeValue {
             type Output = Self;
             #[inline] fn div(self, n: $time) -> Self::Output {
-                if n > INFINITE_TIME_VALUE as $time || n < -INFINITE_TIME_VALUE as $time {
-                    TimeValue::default() // zero
-                } else {
-                    TimeValue::from_ticks(self.0.saturating_div(n as i64))
-                }
+                // beyond the infinite value, the quotient of any finite value is zero
+                let n = n.clamp(-INFINITE_TIME_VALUE as $time, INFINITE_TIME_VALUE as $time);
+                div_ticks(self, n as i64)
             }
         }
     };
@@ -71,11 +82,9 @@ macro_rules! timevalscalingubig {
         impl Div<$time> for TimeValue {
             type Output = Self;
             #[inline] fn div(self, n: $time) -> Self::Output {
-                if n > INFINITE_TIME_VALUE as $time {
-                    TimeValue::default() // zero
-                } else {
-                    TimeValue::from_ticks(self.0.saturating_div(n as i64))
-                }
+                // beyond the infinite value, the quotient of any finite value is zero
+                let n = n.min(INFINITE_TIME_VALUE as $time);
+                div_ticks(self, n as i64)
             }
         }
     };
-- 
2.43.0


From 5d661942b7519f8fc18aa9c3934e63f3baa2ecaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:35 +0000
Subject: [PATCH 14/36] fix: float scaling makes infinite durations finite and
 division by a float is inexact

---
 src/ops/scaling.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/ops/scaling.rs b/src/ops/scaling.rs
index f2f48e8..b0f22ba 100644
--- a/src/ops/scaling.rs
+++ b/src/ops/scaling.rs
@@ -102,6 +102,8 @@ macro_rules! timevalscalingfloat {
             type Output = Self;
             #[inline]
             fn mul(self, n: $time) -> Self::Output {
+                // an infinite duration remains infinite (except if scaled by zero)
+                if !self.is_finite() && n != 0. { return if n < 0. { -self } else { self }; }
                 let t = self.0 as $time * n;
                 if t > INFINITE_TIME_VALUE as $time {
                     TimeValue::INFINITE
@@ -116,7 +118,16 @@ macro_rules! timevalscalingfloat {
             type Output = Self;
             #[inline]
             fn div(self, n: $time) -> Self::Output {
-                self.mul(1. / n)
+                // an infinite duration remains infinite
+                if !self.is_finite() { return if n < 0. { -self } else { self }; }
+                let t = self.0 as $time / n; // more accurate than scaling by 1/n
+                if t > INFINITE_TIME_VALUE as $time {
+                    TimeValue::INFINITE
+                } else if t < -INFINITE_TIME_VALUE as $time {
+                    -TimeValue::INFINITE
+                } else {
+                    TimeValue::from_ticks(t as i64)
+                }
             }
         }
     };
-- 
2.43.0


From 2d14cf226a7670676a0ea1667321fc4ab88397d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:36 +0000
Subject: [PATCH 15/36] fix: scaling a set of durations by zero stores an empty
 part

---
 src/ops/scaling.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ops/scaling.rs b/src/ops/scaling.rs
index b0f22ba..35646e2 100644
--- a/src/ops/scaling.rs
+++ b/src/ops/scaling.rs
@@ -276,7 +276,7 @@ macro_rules! timespansscaleint {
                     if self.is_empty() {
                         TimeSpans::empty()
                     } else {
-                        Self(vec![ TimeSpan::default() ])
+                        Self(vec![ TimeSpan::singleton(TimeValue::default()) ])
                     }
                 } else {
                     // since factor is non null integer, the scale increases distances between
@@ -303,7 +303,7 @@ macro_rules! timespansscaleint {
                 if n == 0 {
                     if !self.is_empty() {
                         self.0.clear();
-                        self.0.push(TimeSpan::default());
+                        self.0.push(TimeSpan::singleton(TimeValue::default()));
                     }
                 } else {
                     self.0.iter_mut().for_each(|tw| *tw *= n);
-- 
2.43.0


From ee46edde9a9a7926862dfa4be8ca8e7169f7c14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:37 +0000
Subject: [PATCH 16/36] fix: scaling an empty interval panics or gives a
 non-empty one

---
 src/ops/scaling.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ops/scaling.rs b/src/ops/scaling.rs
index 35646e2..d587ee9 100644
--- a/src/ops/scaling.rs
+++ b/src/ops/scaling.rs
@@ -170,6 +170,7 @@ macro_rules! timespanscalingint {
             #[inline]
             #[allow(unused_comparisons)]
             fn mul(self, n: $scale) -> Self::Output {
+                if self.is_empty() { return self; }
                 let (lower, upper) = if n < 0 {
                     // negative factor -> reverse interval
                     (self.upper * n, self.lower * n)
@@ -186,6 +187,7 @@ macro_rules! timespanscalingint {
             #[inline]
             #[allow(unused_comparisons)]
             fn div(self, n: $scale) -> Self::Output {
+                if self.is_empty() { return self; }
                 let (lower, upper) = if n < 0 {
                     // negative factor -> reverse interval
                     (self.upper / n, self.lower / n)
@@ -218,6 +220,7 @@ macro_rules! timespanscalingfloat {
             type Output = TimeSpan;
             #[inline]
             fn mul(self, f: $scale) -> Self::Output {
+                if self.is_empty() { return self; }
                 let (lower, upper) = if f < 0. {
                     // negative factor -> reverse interval
                     (self.upper * f, self.lower * f)
@@ -233,6 +236,7 @@ macro_rules! timespanscalingfloat {
             type Output = TimeSpan;
             #[inline]
             fn div(self, f: $scale) -> Self::Output {
+                if self.is_empty() { return self; }
                 let (lower, upper) = if f < 0. {
                     // negative factor -> reverse interval
                     (self.upper / f, self.lower / f)
-- 
2.43.0


From 4ce74dea993d68fbef51ef288d24e717c180573b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:38 +0000
Subject: [PATCH 17/36] fix: shrinking a set of durations by a float factor
 does not merge its parts

---
 src/ops/scaling.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ops/scaling.rs b/src/ops/scaling.rs
index d587ee9..58372ca 100644
--- a/src/ops/scaling.rs
+++ b/src/ops/scaling.rs
@@ -352,7 +352,7 @@ macro_rules! timespansscalefloat {
                     .map(|tw| *tw * f)
                     .collect::<Vec<_>>();
                 if f < 0. { inners.reverse() }
-                if f.abs() > 1. { check_joined_inners(&mut inners); }
+                if f.abs() < 1. { check_joined_inners(&mut inners); }
                 Self(inners)
             }
         }
-- 
2.43.0


From dca095cd4c81527dab9c27bb46a173a39197fd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:39 +0000
Subject: [PATCH 18/36] fix: dividing a set of durations by a float is inexact

---
 src/ops/scaling.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ops/scaling.rs b/src/ops/scaling.rs
index 58372ca..208342b 100644
--- a/src/ops/scaling.rs
+++ b/src/ops/scaling.rs
@@ -358,7 +358,8 @@ macro_rules! timespansscalefloat {
         }
         impl Div<$scale> for TimeSpans {
             type Output = TimeSpans;
-            #[inline] fn div(self, f: $scale) -> Self::Output { self * (1./f) }
+            #[inline]
+            fn div(mut self, f: $scale) -> Self::Output { self /= f; self }
         }
         impl MulAssign<$scale> for TimeSpans {
             #[inline]
@@ -369,7 +370,12 @@ macro_rules! timespansscalefloat {
             }
         }
         impl DivAssign<$scale> for TimeSpans {
-            #[inline] fn div_assign(&mut self, f: $scale) { *self *= 1./f }
+            #[inline]
+            fn div_assign(&mut self, f: $scale) {
+                self.0.iter_mut().for_each(|tw| *tw /= f);
+                if f < 0. { self.0.reverse() }
+                if f.abs() > 1. { check_joined_inners(&mut self.0) }
+            }
         }
     };
 }
-- 
2.43.0


From 9afdd16ca1e4d1e1189d57d0163c21883d36564f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:41 +0000
Subject: [PATCH 19/36] fix: scaling iterator yields unsorted or joined parts

---
 src/iter/scaling.rs | 31 +++----------------------------
 1 file changed, 3 insertions(+), 28 deletions(-)

diff --git a/src/iter/scaling.rs b/src/iter/scaling.rs
index b80fe6e..85c589b 100644
--- a/src/iter/scaling.rs
+++ b/src/iter/scaling.rs
@@ -15,35 +15,10 @@ impl<I:TimeConvexIterator,S:Copy> TimeScaling<S> for I
     where
         I::Item: Mul<S,Output=I::Item>
 {
-    type Output = TimeValueScaleIter<I,S>;
+    type Output = crate::iter::intoiter::IntoConvexIter<I::TimePoint,std::vec::IntoIter<TimeInterval<I::TimePoint>>>;
 
     fn scaling(self, scale: S) -> Self::Output {
-        TimeValueScaleIter { scale, iter: self }
+        // the scale could reverse or join the successive intervals
+        self.map(|tw| tw*scale).collect::<TimeSet<_>>().into_iter()
     }
 }
-
-pub struct TimeValueScaleIter<I:TimeConvexIterator,S:Copy> {
-    scale: S,
-    iter: I
-}
-
-impl<I:TimeConvexIterator,S:Copy> Iterator for TimeValueScaleIter<I,S>
-    where
-        I::Item: Mul<S,Output=I::Item>
-{
-    type Item = I::Item;
-
-    fn next(&mut self) -> Option<Self::Item> {
-        self.iter.next().map(|tw| tw*self.scale)
-            .and_then(|tw| if tw.is_empty() { None } else { Some(tw) })
-    }
-}
-
-
-impl<I:TimeConvexIterator,S:Copy> TimeConvexIterator for TimeValueScaleIter<I,S>
-    where
-        I::Item: Mul<S,Output=I::Item>
-{
-    type TimePoint = I::TimePoint;
-}
-
-- 
2.43.0


From 62b2ffdf5235c1cfc100772acd8e9acadc26a808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:38 +0000
Subject: [PATCH 20/36] fix: durations below the range wrap around instead of
 being -oo

---
 src/wins/timevalue.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wins/timevalue.rs b/src/wins/timevalue.rs
index dcc0c20..a77545d 100644
--- a/src/wins/timevalue.rs
+++ b/src/wins/timevalue.rs
@@ -56,6 +56,8 @@ impl TimeValue {
     {
         if sec > MAX_SEC {
             TimeValue::INFINITE
+        } else if sec < -MAX_SEC {
+            -TimeValue::INFINITE
         } else {
             Self(sec << SUBSEC_BITLEN)
         }
@@ -67,6 +69,8 @@ impl TimeValue {
         let frac = t - sec*unit;
         if sec > MAX_SEC {
             TimeValue::INFINITE
+        } else if sec < -MAX_SEC {
+            -TimeValue::INFINITE
         } else {
             // we should separate in order to deal with overflow
             Self((sec<<SUBSEC_BITLEN) + (frac << SUBSEC_BITLEN)/unit)
-- 
2.43.0


From 9f8628b01f036efc053975ebe4838fd95507b9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:39 +0000
Subject: [PATCH 21/36] fix: very negative chrono duration converted to +oo

---
 src/wins/timevalue.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wins/timevalue.rs b/src/wins/timevalue.rs
index a77545d..87d63bc 100644
--- a/src/wins/timevalue.rs
+++ b/src/wins/timevalue.rs
@@ -267,6 +267,7 @@ impl From<chrono::Duration> for TimeValue
     fn from(t: chrono::Duration) -> Self
     {
         match t.num_nanoseconds() {
+            None if t < chrono::Duration::zero() => -TimeValue::INFINITE,
             None => TimeValue::INFINITE,
             Some(nanos) => TimeValue::from_nanos(nanos)
         }
-- 
2.43.0


From ea928823897c8854044ccce40ac007d4db192667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:40 +0000
Subject: [PATCH 22/36] fix: representable standard durations converted to +oo

---
 src/wins/timevalue.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wins/timevalue.rs b/src/wins/timevalue.rs
index 87d63bc..2a401e6 100644
--- a/src/wins/timevalue.rs
+++ b/src/wins/timevalue.rs
@@ -288,7 +288,7 @@ impl From<time::Duration> for TimeValue
     fn from(t: time::Duration) -> Self
     {
         let sec = t.as_secs();
-        if sec > i32::MAX as u64 {
+        if sec > MAX_SEC as u64 {
             TimeValue::INFINITE
         } else {
             let ns = t.subsec_nanos() as i64;
-- 
2.43.0


From 98ae34ff5df81bd6eb101e586708613cb0764036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:41 +0000
Subject: [PATCH 23/36] fix: ceil of negative durations is one period too low

---
 src/wins/timevalue.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wins/timevalue.rs b/src/wins/timevalue.rs
index 2a401e6..533d8e8 100644
--- a/src/wins/timevalue.rs
+++ b/src/wins/timevalue.rs
@@ -212,7 +212,7 @@ impl TimeValue {
             if self.0 > 0 {
                 ((self.0-1)/period.0+1)*period.0
             } else {
-                ((self.0-1)/period.0)*period.0
+                (self.0/period.0)*period.0
             }
         )
     }
-- 
2.43.0


From 7e8e3ba26d6e3f31ae9b695437063fcc99f16313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:42 +0000
Subject: [PATCH 24/36] fix: truncating a duration to months truncates to years

---
 src/wins/convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wins/convert.rs b/src/wins/convert.rs
index 1fbe240..1a5a2e9 100644
--- a/src/wins/convert.rs
+++ b/src/wins/convert.rs
@@ -21,7 +21,7 @@ impl IntoTimeValue for TimeValue
         if self.is_strictly_negative() { self.ceil(1.years()) } else { self.floor(1.years())}
     }
     #[inline] fn months(self) -> TimeValue {
-        if self.is_strictly_negative() { self.ceil(1.years()) } else { self.floor(1.years())}
+        if self.is_strictly_negative() { self.ceil(1.months()) } else { self.floor(1.months())}
     }
     #[inline] fn weeks(self) -> TimeValue {
         if self.is_strictly_negative() { self.ceil(1.weeks()) } else { self.floor(1.weeks())}
-- 
2.43.0


From 7db647f1cd507193b50b97325075eed53c5e6408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:43 +0000
Subject: [PATCH 25/36] fix: truncating a negative duration to seconds rounds
 away from zero

---
 src/wins/convert.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/wins/convert.rs b/src/wins/convert.rs
index 1a5a2e9..6da1637 100644
--- a/src/wins/convert.rs
+++ b/src/wins/convert.rs
@@ -1,4 +1,4 @@
-use crate::{SUBSEC_BITMASK, TimeValue};
+use crate::TimeValue;
 
 pub trait IntoTimeValue
 {
@@ -35,8 +35,9 @@ impl IntoTimeValue for TimeValue
     #[inline] fn mins(self) -> TimeValue {
         if self.is_strictly_negative() { self.ceil(1.mins()) } else { self.floor(1.mins())}
     }
-    #[inline] fn secs(mut self) -> TimeValue { self.0 &= !SUBSEC_BITMASK; self }
-
+    #[inline] fn secs(self) -> TimeValue {
+        if self.is_strictly_negative() { self.ceil(1.secs()) } else { self.floor(1.secs())}
+    }
     #[inline] fn millis(self) -> TimeValue {
         if self.is_strictly_negative() { self.ceil(1.millis()) } else { self.floor(1.millis())}
     }
-- 
2.43.0


From 0a2d757fc4054eeb5dbcfc8a2e57b872fd1c3ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:44 +0000
Subject: [PATCH 26/36] fix: backward sequence starts two periods before its
 first date

---
 src/seq/backward.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seq/backward.rs b/src/seq/backward.rs
index d624bd1..7232f90 100644
--- a/src/seq/backward.rs
+++ b/src/seq/backward.rs
@@ -13,7 +13,7 @@ impl TimeSequence for TimeSeqBackward
     fn new<T:Timestamped>(t: T, delta: TimeValue) -> Self
     {
         assert!( delta.is_strictly_positive(), "sequence interval should be strictly positive" );
-        let t = t.timestamp() - delta; // so we will start at t
+        let t = t.timestamp() + delta; // so we will start at t
         assert!( t.is_finite(), "infinite start value");
         Self { t, step: delta }
     }
-- 
2.43.0


From 7573c488360f2ea3914f401a421627860b3b3302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:45 +0000
Subject: [PATCH 27/36] fix: sequence length, last and nth disagree with
 stepping one by one

---
 src/seq/backward.rs | 21 ++++++++++-----------
 src/seq/forward.rs  | 21 ++++++++++-----------
 2 files changed, 20 insertions(+), 22 deletions(-)

diff --git a/src/seq/backward.rs b/src/seq/backward.rs
index 7232f90..d3e3894 100644
--- a/src/seq/backward.rs
+++ b/src/seq/backward.rs
@@ -31,11 +31,9 @@ impl TimeSequence for TimeSeqBackward
 
     fn len(&self) -> usize
     {
-        if self.t.0.is_strictly_negative() {
-            (self.t.0.as_ticks() - i64::MIN) as usize / self.step.as_ticks() as usize
-        } else {
-            self.t.0.as_ticks() as usize + i64::MAX as usize + 1 / self.step.as_ticks() as usize
-        }
+        // number of periods which remain strictly after -oo
+        let ticks = self.t.0.as_ticks() as i128 + (i64::MAX as i128) - 1;
+        (ticks.max(0) / self.step.as_ticks() as i128) as usize
     }
 }
 
@@ -65,21 +63,22 @@ impl Iterator for TimeSeqBackward {
         self.len()
     }
 
-    fn last(self) -> Option<Self::Item>
+    fn last(mut self) -> Option<Self::Item>
     {
-        let n = self.len();
-        (n > 0).then_some(self.t - n*self.step)
+        self.nth(self.len().checked_sub(1)?)
     }
 
 
     fn nth(&mut self, n: usize) -> Option<Self::Item>
     {
-        if self.len() < n {
+        if self.len() <= n {
             self.t = -Timestamp::INFINITE;
             None
         } else {
-            self.t -= self.step * n;
+            // the (n+1) steps could exceed the greatest duration even if the date is in the range
+            let ticks = self.t.0.as_ticks() as i128 - (n as i128 + 1) * self.step.as_ticks() as i128;
+            self.t = Timestamp(TimeValue::from_ticks(ticks as i64));
             Some(self.t)
         }
     }
-}
\ No newline at end of file
+}
diff --git a/src/seq/forward.rs b/src/seq/forward.rs
index d1469c0..c4e01ce 100644
--- a/src/seq/forward.rs
+++ b/src/seq/forward.rs
@@ -32,11 +32,9 @@ impl TimeSequence for TimeSeqForward
 
     fn len(&self) -> usize
     {
-        if self.t.0.is_positive() {
-            (i64::MAX - self.t.0.as_ticks()) as usize / self.step.as_ticks() as usize
-        } else {
-            (i64::MAX as usize) + (-self.t.0.as_ticks() as usize) / self.step.as_ticks() as usize
-        }
+        // number of periods which remain strictly before +oo
+        let ticks = (i64::MAX as i128) - 1 - self.t.0.as_ticks() as i128;
+        (ticks.max(0) / self.step.as_ticks() as i128) as usize
     }
 }
 
@@ -66,21 +64,22 @@ impl Iterator for TimeSeqForward {
         self.len()
     }
 
-    fn last(self) -> Option<Self::Item>
+    fn last(mut self) -> Option<Self::Item>
     {
-        let n = self.len();
-        (n > 0).then_some(self.t + n*self.step)
+        self.nth(self.len().checked_sub(1)?)
     }
 
 
     fn nth(&mut self, n: usize) -> Option<Self::Item>
     {
-        if self.len() < n {
+        if self.len() <= n {
             self.t = Timestamp::INFINITE;
             None
         } else {
-            self.t += self.step * n;
+            // the (n+1) steps could exceed the greatest duration even if the date is in the range
+            let ticks = self.t.0.as_ticks() as i128 + (n as i128 + 1) * self.step.as_ticks() as i128;
+            self.t = Timestamp(TimeValue::from_ticks(ticks as i64));
             Some(self.t)
         }
     }
-}
\ No newline at end of file
+}
-- 
2.43.0


From 1cbedd6b70399c06e0641ed158561856a3a80ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:13 +0000
Subject: [PATCH 28/36] fix: exactly one millisecond or microsecond is written
 in the smaller unit

---
 src/wins/format.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wins/format.rs b/src/wins/format.rs
index 9e84515..c668083 100644
--- a/src/wins/format.rs
+++ b/src/wins/format.rs
@@ -53,11 +53,11 @@ fn format_duration(t: i64) -> String
     let ticks = concat_unit(ticks, TimeValue::from_secs, "s");
 
     let mut str = ticks.1;
-    if nanos > 1_000_000 {
+    if nanos >= 1_000_000 {
         str = format!("{}{}ms ", str, nanos/1_000_000);
         nanos %= 1_000_000;
     }
-    if nanos > 1_000 {
+    if nanos >= 1_000 {
         str = format!("{}{}us ", str, nanos/1_000);
         nanos %= 1_000;
     }
-- 
2.43.0


From c6d034a10a4eb8310cd2b698ad25b0aef3869345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:15 +0000
Subject: [PATCH 29/36] fix: formatted empty window has doubled braces

---
 src/wins/format.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wins/format.rs b/src/wins/format.rs
index c668083..5da6ed1 100644
--- a/src/wins/format.rs
+++ b/src/wins/format.rs
@@ -86,7 +86,7 @@ fn format_timeslot<TW:TimeConvex>(tw: &TW, timefmt: &str) -> String
     where TW::TimePoint: TimePointFormat
 {
     if tw.is_empty() {
-        "{{}}".to_string()
+        "{}".to_string()
 
     } else if tw.is_singleton() {
         format!("{{{}}}", tw.lower_bound().format_timepoint(timefmt))
@@ -114,7 +114,7 @@ impl<TW:TimeWindow> TimeSetFormat for TW
             iter.fold(format_timeslot(&first, timefmt),
                       |s,i| s + "U" + &format_timeslot(&i,timefmt))
         } else {
-           "{{}}".to_string() /* empty set */
+           "{}".to_string() /* empty set */
         }
     }
 }
-- 
2.43.0


From aa051665873051f6b7aee90da8926bc8ddb34751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:16 +0000
Subject: [PATCH 30/36] fix: constraint on a new instant is not propagated to
 the other instants

---
 src/graph/propagation.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/graph/propagation.rs b/src/graph/propagation.rs
index 02ef878..721a617 100644
--- a/src/graph/propagation.rs
+++ b/src/graph/propagation.rs
@@ -2,7 +2,7 @@ use std::error::Error;
 use std::fmt;
 use std::mem::swap;
 use crate::graph::{Instant, TimeConstraint, TimeGraph};
-use crate::TimeValue;
+use crate::{TimeContaining, TimeInterval, TimeValue};
 
 pub type TimePropagationResult = Result<TimePropagation,TimeInconsistencyError>;
 
@@ -51,14 +51,15 @@ impl TimeGraph
         } else {
             let max = k.from().max(k.to());
             if self.size() <= max {
-                // si i ou j n'était pas dans le graphe, on n'aura rien à propager
-                self.resize(max + 1);
-                unsafe {
-                    // SAFETY: we have just resize the graph for that
-                    *self.lower_mut(k.from(), k.to()) = k.lower_bound();
-                    *self.lower_mut(k.to(), k.from()) = -k.upper_bound();
+                // si i ou j n'était pas dans le graphe, on l'agrandit avant de propager
+                let k = ((k.from(), k.to()), TimeInterval { lower: k.lower_bound(), upper: k.upper_bound() });
+                if k.from() == k.to() && !k.1.contains(&TimeValue::default()) {
+                    // une durée non nulle d'un instant à lui-même
+                    return Err(TimeInconsistencyError::Recovered)
                 }
-                Ok(TimePropagation::Propagated)
+                self.resize(max + 1);
+                // l'agrandissement est lui-même un changement
+                self.propagate(k).map(|_| TimePropagation::Propagated)
             } else {
                 unsafe {
                     // SAFETY: we check the size of the graph just before entering here
-- 
2.43.0


From 001b7d5d4a1eefe81d5087f3af3c744702b7c28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:17 +0000
Subject: [PATCH 31/36] fix: constraints of an emptied graph come back when it
 grows again

---
 src/graph/propagation.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/graph/propagation.rs b/src/graph/propagation.rs
index 721a617..0439c09 100644
--- a/src/graph/propagation.rs
+++ b/src/graph/propagation.rs
@@ -167,6 +167,7 @@ impl TimeGraph
                 }
                 if unsafe { self.lower(i,i) }.is_strictly_positive() {
                     self.size = 0;
+                    self.data.clear(); // nothing should survive if the graph grows again
                     return Err(TimeInconsistencyError::Fatal)
                 }
             }
-- 
2.43.0


From e3a07b7f964e175372c7e584b0a6803c26e0f9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:18 +0000
Subject: [PATCH 32/36] fix: adding an empty constraint among others panics

---
 src/graph/propagation.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/graph/propagation.rs b/src/graph/propagation.rs
index 0439c09..57cbb12 100644
--- a/src/graph/propagation.rs
+++ b/src/graph/propagation.rs
@@ -196,7 +196,13 @@ impl TimeGraph
                 }
             }
             _ => {
-                iter.for_each(|k| {
+                for k in iter {
+                        if k.is_empty() {
+                            // no duration could satisfy this constraint
+                            self.size = 0;
+                            self.data.clear();
+                            return Err(TimeInconsistencyError::Fatal)
+                        }
                         let max = k.from().max(k.to());
                         if max >= self.size() { self.resize(max+1) }
 
@@ -209,7 +215,7 @@ impl TimeGraph
                         if *upper < -k.upper_bound() {
                             *upper = -k.upper_bound();
                         }
-                    });
+                    }
                 self.global_propagation()
             }
         }
-- 
2.43.0


From 49ab213643d587af9b1b4f81eb5ab67578f16fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:41 +0000
Subject: [PATCH 33/36] fix: listing from an instant yields unconstrained pairs
 and listing size hints underflow

---
 src/graph/constraints.rs | 45 +++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/src/graph/constraints.rs b/src/graph/constraints.rs
index 229584b..208767f 100644
--- a/src/graph/constraints.rs
+++ b/src/graph/constraints.rs
@@ -176,10 +176,15 @@ impl<'a> Iterator for TimeConstraintIter<'a> {
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>)
     {
-        let all_constraints = (self.graph.size() * self.graph.size() - self.graph.size())/2;
-        let previous_constraints =  (self.i * self.i - self.i)/2;
-        let max = all_constraints - previous_constraints + 1 - self.j;
-        (0, Some(max as usize))
+        let n = self.graph.size() as usize;
+        let (i,j) = (self.i as usize, self.j as usize);
+        if i >= n {
+            (0, Some(0))
+        } else {
+            // remaining couples of the current line and then of the following ones
+            let lines = n - 1 - i;
+            (0, Some(n - 1 - j + lines * lines.saturating_sub(1) / 2))
+        }
     }
 }
 
@@ -207,35 +212,27 @@ impl<'a> Iterator for TimeConstraintFromIter<'a> {
             // this iterator is a FusedIterator
             None
         } else {
-            let current = TimeGraphConstraint {
-                from: self.i,
-                to: self.j,
-                graph: self.graph
-            };
-            loop { // search the next current
+            while self.j < self.graph.size() { // search the next constrained instant
+                let j = self.j;
                 self.j += 1;
-
-                if self.j == self.graph.size() {
-                    self.i = self.graph.size();
-                    break;
-
-                } else if self.i != self.j &&
-                    (unsafe { !self.graph.lower(self.i,self.j).is_past_infinite() }
-                        || unsafe { !self.graph.lower(self.j,self.i).is_past_infinite() }) {
-                    break;
+                if self.i != j &&
+                    (unsafe { !self.graph.lower(self.i,j).is_past_infinite() }
+                        || unsafe { !self.graph.lower(j,self.i).is_past_infinite() }) {
+                    return Some(TimeGraphConstraint { from: self.i, to: j, graph: self.graph });
                 }
             }
-            Some(current)
+            None
         }
     }
 
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>)
     {
-        let all_constraints = (self.graph.size() * self.graph.size() - self.graph.size())/2;
-        let previous_constraints =  (self.i * self.i - self.i)/2;
-        let max = all_constraints - previous_constraints + 1 - self.j;
-        (0, Some(max as usize))
+        if self.i >= self.graph.size() {
+            (0, Some(0))
+        } else {
+            (0, Some((self.graph.size() - self.j) as usize))
+        }
     }
 }
 
-- 
2.43.0


From f3bd3d67493249d9721eea77b00d664fd776a827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:42 +0000
Subject: [PATCH 34/36] fix: scheduling propagation is incomplete and a refused
 request corrupts the schedule

---
 src/graph/scheduler.rs | 48 ++++++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/src/graph/scheduler.rs b/src/graph/scheduler.rs
index 077e6ca..c9cbc6b 100644
--- a/src/graph/scheduler.rs
+++ b/src/graph/scheduler.rs
@@ -107,9 +107,15 @@ impl TimeScheduler<'_> {
             } else if !tw.overlaps(self.schedule.get_unchecked(i as usize)) {
                 Err(TimeInconsistencyError::Recovered)
             } else {
+                // keeps the current schedule in case of inconsistency
+                let saved = self.schedule.clone();
                 *self.schedule.get_unchecked_mut(i as usize) &= tw;
-                self.propagate_scheduling(i);
-                Ok(TimePropagation::Propagated)
+                if self.propagate_scheduling(i) {
+                    Ok(TimePropagation::Propagated)
+                } else {
+                    self.schedule = saved;
+                    Err(TimeInconsistencyError::Recovered)
+                }
             }
         }
     }
@@ -123,22 +129,32 @@ impl TimeScheduler<'_> {
         self.retain(i, !tw)
     }
 
-    fn propagate_scheduling(&mut self, i: Instant)
+    /// Propagates the new slots of an instant until nothing changes
+    ///
+    /// Returns `false` if an instant can't be scheduled anymore.
+    fn propagate_scheduling(&mut self, i: Instant) -> bool
     {
-        debug_assert!( i as usize <= self.schedule.len() );
-        unsafe {
-            self.constraints
-                .constraints_from(i)
-                .for_each(|k| {
-                    let j = k.to() as usize;
-                    *self.schedule.get_unchecked_mut(j) =
-                        self.schedule.get_unchecked(j).iter()
-                            .intersection(self.schedule.get_unchecked(i as usize)
-                                .iter()
-                                .translation(&TimeInterval::from(k)))
-                            .collect();
-                });
+        debug_assert!( (i as usize) < self.schedule.len() );
+        let graph = self.constraints;
+        let mut todo = vec![i];
+        while let Some(i) = todo.pop() {
+            for k in graph.constraints_from(i) {
+                let j = k.to();
+                let slots: TimeSlots =
+                    self.schedule[j as usize].iter()
+                        .intersection(self.schedule[i as usize]
+                            .iter()
+                            .translation(&TimeInterval::from(k)))
+                        .collect();
+                if slots != self.schedule[j as usize] {
+                    if slots.is_empty() { return false }
+                    self.schedule[j as usize] = slots;
+                    if !todo.contains(&j) { todo.push(j) }
+                }
+            }
+            if self.schedule[i as usize].is_empty() { return false }
         }
+        true
     }
 }
 
-- 
2.43.0


From 025a61999b2ee78611d2c0547dfd98e5304233fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:40 +0000
Subject: [PATCH 35/36] fix: a range without any finite date denotes the empty
 window

---
 src/ops/range.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/ops/range.rs b/src/ops/range.rs
index 6acb40f..50c025e 100644
--- a/src/ops/range.rs
+++ b/src/ops/range.rs
@@ -7,55 +7,56 @@ use crate::iter::*;
 impl<T:TimePoint> TimeBounds for Range<T>
 {
     type TimePoint = T;
-    #[inline] fn is_empty(&self) -> bool { Range::is_empty(self) }
+    // `..` the least finite date is empty too
+    #[inline] fn is_empty(&self) -> bool { Range::is_empty(self) || self.end.just_before().is_past_infinite() }
     #[inline] fn is_bounded(&self) -> bool { !self.is_empty() && self.lower_bound().is_finite() && self.upper_bound().is_finite() }
     #[inline] fn is_low_bounded(&self) -> bool { !self.is_empty() && self.lower_bound().is_finite() }
     #[inline] fn is_up_bounded(&self) -> bool { !self.is_empty() && self.upper_bound().is_finite()  }
-    #[inline] fn lower_bound(&self) -> Self::TimePoint { if self.is_empty() { T::INFINITE } else { self.start } }
-    #[inline] fn upper_bound(&self) -> Self::TimePoint { if self.is_empty() { -T::INFINITE} else { self.end.just_before() } }// not inclusive
+    #[inline] fn lower_bound(&self) -> Self::TimePoint { if TimeBounds::is_empty(self) { T::INFINITE } else { self.start } }
+    #[inline] fn upper_bound(&self) -> Self::TimePoint { if TimeBounds::is_empty(self) { -T::INFINITE} else { self.end.just_before() } }// not inclusive
 }
 
 impl<T:TimePoint> TimeBounds for RangeFrom<T>
 {
     type TimePoint = T;
-    #[inline] fn is_empty(&self) -> bool { false }
+    #[inline] fn is_empty(&self) -> bool { self.start.is_future_infinite() }
     #[inline] fn is_bounded(&self) -> bool { false }
     #[inline] fn is_low_bounded(&self) -> bool { self.lower_bound().is_finite() }
     #[inline] fn is_up_bounded(&self) -> bool { false }
     #[inline] fn lower_bound(&self) -> Self::TimePoint { self.start }
-    #[inline] fn upper_bound(&self) -> Self::TimePoint { Self::TimePoint::INFINITE }
+    #[inline] fn upper_bound(&self) -> Self::TimePoint { if self.is_empty() { -T::INFINITE } else { T::INFINITE } }
 }
 
 impl<T:TimePoint> TimeBounds for RangeInclusive<T>
 {
     type TimePoint = T;
-    #[inline] fn is_empty(&self) -> bool { RangeInclusive::is_empty(self) }
+    #[inline] fn is_empty(&self) -> bool { RangeInclusive::is_empty(self) || self.start().is_future_infinite() || self.end().is_past_infinite() }
     #[inline] fn is_bounded(&self) -> bool { !self.is_empty() && self.lower_bound().is_finite() && self.upper_bound().is_finite() }
     #[inline] fn is_low_bounded(&self) -> bool { !self.is_empty() && self.lower_bound().is_finite() }
     #[inline] fn is_up_bounded(&self) -> bool { !self.is_empty() && self.upper_bound().is_finite()  }
-    #[inline] fn lower_bound(&self) -> Self::TimePoint { if self.is_empty() { T::INFINITE} else { *self.start() } }
-    #[inline] fn upper_bound(&self) -> Self::TimePoint { if self.is_empty() { -T::INFINITE } else { *self.end() } } // inclusive
+    #[inline] fn lower_bound(&self) -> Self::TimePoint { if TimeBounds::is_empty(self) { T::INFINITE} else { *self.start() } }
+    #[inline] fn upper_bound(&self) -> Self::TimePoint { if TimeBounds::is_empty(self) { -T::INFINITE } else { *self.end() } } // inclusive
 }
 
 impl<T:TimePoint> TimeBounds for RangeTo<T>
 {
     type TimePoint = T;
-    #[inline] fn is_empty(&self) -> bool { false }
+    #[inline] fn is_empty(&self) -> bool { self.upper_bound().is_past_infinite() }
     #[inline] fn is_bounded(&self) -> bool { false }
     #[inline] fn is_low_bounded(&self) -> bool { false }
     #[inline] fn is_up_bounded(&self) -> bool { self.upper_bound().is_finite()  }
-    #[inline] fn lower_bound(&self) -> Self::TimePoint { - Self::TimePoint::INFINITE }
+    #[inline] fn lower_bound(&self) -> Self::TimePoint { if self.is_empty() { T::INFINITE } else { -T::INFINITE } }
     #[inline] fn upper_bound(&self) -> Self::TimePoint { self.end.just_before() } // not inclusive
 }
 
 impl<T:TimePoint> TimeBounds for RangeToInclusive<T>
 {
     type TimePoint = T;
-    #[inline] fn is_empty(&self) -> bool { false }
+    #[inline] fn is_empty(&self) -> bool { self.upper_bound().is_past_infinite() }
     #[inline] fn is_bounded(&self) -> bool { false }
     #[inline] fn is_low_bounded(&self) -> bool { false }
     #[inline] fn is_up_bounded(&self) -> bool { self.upper_bound().is_finite()  }
-    #[inline] fn lower_bound(&self) -> Self::TimePoint { - Self::TimePoint::INFINITE }
+    #[inline] fn lower_bound(&self) -> Self::TimePoint { if self.is_empty() { T::INFINITE } else { -T::INFINITE } }
     #[inline] fn upper_bound(&self) -> Self::TimePoint { self.end } // inclusive
 }
 
-- 
2.43.0


From 67c757194cb2d0334ac0c2ca0d649a579060ceb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:42 +0000
Subject: [PATCH 36/36] fix: narrowing an interval past a limit gives no
 window, not one without instants

---
 src/wins/timeinterval.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wins/timeinterval.rs b/src/wins/timeinterval.rs
index fd31588..a5f04b7 100644
--- a/src/wins/timeinterval.rs
+++ b/src/wins/timeinterval.rs
@@ -172,7 +172,8 @@ impl<T:TimePoint> TimeInterval<T>
         let lower = self.lower - delta;
         let upper = self.upper + delta;
         // if delta is negative, we could be surprised...
-        (lower <= upper).then_some(Self { lower, upper } )
+        (lower <= upper && !lower.is_future_infinite() && !upper.is_past_infinite())
+            .then_some(Self { lower, upper } )
     }
 
 }
-- 
2.43.0

