"""More planted changes (same form as seeds.py)."""
def more(P, G, I):
    return {
"inter-drain-other": dict(prop="C31", use=I,
  edits=[("src/iter/intersect.rs", """                    match self.i.next() {
                        None => {
                            /* end of the iterator over i...*/
                            self.state = InterState::End;
                            return None;
                        },""", """                    match self.i.next() {
                        None if self.tmp.is_empty() => {
                            self.state = InterState::End;
                            return None;
                        },
                        None => {
                            /* end of the iterator over i...*/
                            self.state = InterState::WaitJ;
                            self.tmp = TimeInterval::empty();
                        },""")],
  needs="the left source of an intersection ends while the right one is endless",
  breaks="the intersection keeps reading the endless source and never answers",
  demo="""let s = set(&[(0,5),(8,9)]); let i = (&s).into_iter().intersection(Endless(0)); assert_eq!(ivs(i), vec![(0,1),(4,5),(8,9)]);
let i = Endless(0).intersection(&set(&[(0,5),(8,9)])); assert_eq!(ivs(i), vec![(0,1),(4,5),(8,9)]);""",
  items="""struct Endless(i64); impl Iterator for Endless { type Item = TimeSlot; fn next(&mut self) -> Option<TimeSlot> { assert!(self.0 < 1000, "pulled far too much"); let a = self.0; self.0 += 4; Some(sl(a, a+1)) } }
impl TimeConvexIterator for Endless { type TimePoint = Timestamp; }"""),
"union-hint-wrap": dict(prop="C31", use=I,
  edits=[("src/iter/union.rs", """            UnionState::OnlyI => { return self.i.next(); }""", """            UnionState::OnlyI => { let next = self.i.next(); if self.i.size_hint().0 == usize::MAX { self.state = UnionState::End; } return next; }""")],
  needs="a union whose right source is over while the left one announces that it never ends",
  breaks="the union stops though the endless source goes on",
  demo="""let i = Endless(0).union(&set(&[(0,5),(8,9)])); let v: Vec<(i64,i64)> = ivs(i.take(6)); assert_eq!(v, vec![(0,5),(8,9),(12,13),(16,17),(20,21),(24,25)]);""",
  items="""struct Endless(i64); impl Iterator for Endless { type Item = TimeSlot; fn next(&mut self) -> Option<TimeSlot> { let a = self.0; self.0 += 4; Some(sl(a, a+1)) } fn size_hint(&self) -> (usize, Option<usize>) { (usize::MAX, None) } }
impl TimeConvexIterator for Endless { type TimePoint = Timestamp; }"""),
"inter-waitj-clip": dict(prop="C03", use=I,
  edits=[("src/iter/intersect.rs", """                            self.state = InterState::WaitI;
                            if self.tmp.lower < j.lower { self.tmp.lower = j.lower; }
                            swap(&mut j, &mut self.tmp);""", """                            self.state = InterState::WaitI;
                            if self.tmp.lower > j.lower { j.lower = self.tmp.lower; }
                            swap(&mut j, &mut self.tmp);""")],
  needs="an intersection in the state where its right operand is read, the next right part starting inside the pending left one and ending after it",
  breaks="the part yielded starts too early: instants which are not common",
  demo="""let a = set(&[(0,10),(20,30)]); let b = set(&[(2,4),(8,22)]); let c = set(&[(2,4),(8,10),(20,22)]);
assert_eq!(&a & &b, c); assert_eq!(&b & &a, c);"""),
"inter-assign-bounds": dict(prop="C03", use=P,
  edits=[("src/ops/intersect.rs", """        let _ = self.truncate_after(tw.upper_bound());
        let _ = self.truncate_before(tw.lower_bound());""", """        if tw.upper_bound() < self.upper_bound() { let _ = self.truncate_after(tw.upper_bound()); }
        if tw.lower_bound() > self.lower_bound() && !self.is_singleton() { let _ = self.truncate_before(tw.lower_bound()); }""")],
  needs="a set which is (or becomes, once cut on the right) a single instant, intersected in place by an interval which lies after it",
  breaks="the instant survives though it is not common",
  demo="""let mut s = set(&[(5,5)]); s &= sl(7,9); assert!(s.is_empty()); let mut s = set(&[(5,5),(20,30)]); s &= sl(7,9); assert!(s.is_empty()); let mut s = set(&[(5,7),(20,30)]); s &= sl(7,9); assert_eq!(s, set(&[(7,7)]));"""),
"not-interval-greatest-tick": dict(prop="C04", use=P,
  edits=[("src/ops/compl.rs", """            match (cut1.is_past_infinite(), cut2.is_future_infinite()) {""", """            match (cut1.is_past_infinite(), self.upper_bound().is_future_infinite()) {""")],
  needs="the complement of an interval which ends on the greatest finite date",
  breaks="the complement contains an empty part after the greatest date",
  demo="""let n = !sl(5, i64::MAX-1); assert_eq!(n.convex_count(), 1); assert_eq!(n, TimeSlots::from(..=t(4))); let n = !sl(5,9); assert_eq!(n.convex_count(), 2);"""),
"compl-lazy-first-touch": dict(prop="C04", use=I,
  edits=[("src/iter/compl.rs", """                    self.lower = next.upper_bound().just_after();
                    if upper == -I::TimePoint::INFINITE {""", """                    self.lower = if upper.is_finite() { next.upper_bound().just_after() } else { next.upper_bound() };
                    if upper == -I::TimePoint::INFINITE {""")],
  needs="the lazy complement (or exclusion) of a window which is unbounded in the past",
  breaks="the last instant of the first part is also in the complement",
  demo="""let s = TimeSlots::from(..=t(3)) | sl(10,12); let c: TimeSlots = (&s).into_iter().complementary().collect(); assert_eq!(c, !s.clone());
let s = set(&[(0,3),(10,12)]); let c: TimeSlots = (&s).into_iter().complementary().collect(); assert_eq!(c, !s.clone());"""),
"truncate-after-report": dict(prop="C06", use=P,
  edits=[("src/wins/timeset.rs", """                self.0.truncate(pos+1);
                // SAFETY: the position is returned by rposition, so it is surely valid
                let _ = unsafe { self.0.get_unchecked_mut(pos) }.truncate_after(upper);
                true""", """                self.0.truncate(pos+1);
                // SAFETY: the position is returned by rposition, so it is surely valid
                unsafe { self.0.get_unchecked_mut(pos) }.truncate_after(upper)""")],
  needs="a set truncated after a date which lies in a hole (or ends a part), with parts behind",
  breaks="parts are removed but the answer says that nothing changed",
  demo="""let mut s = set(&[(0,3),(5,7),(9,12)]); assert!(s.truncate_after(t(8))); assert_eq!(s, set(&[(0,3),(5,7)])); assert!(s.truncate_after(t(6))); assert!(!s.truncate_after(t(6)));"""),
"contain-one-each": dict(prop="C07", use=P,
  edits=[("src/relns/contain.rs", """        // todo: optimise it by using order of inner intervals
        rhs.into_iter().all(|tw| self.contains(&tw))""", """        // both lists are sorted
        let mut parts = self.0.iter();
        rhs.into_iter().all(|tw| parts.any(|ts| ts.contains(&tw)))""")],
  needs="a set compared with a set which has two parts in the same part of the first one",
  breaks="contains answers false though every instant is contained",
  demo="""let s = set(&[(0,10),(20,30)]); assert!(s.contains(&set(&[(0,3),(25,26)]))); assert!(s.contains(&set(&[(0,3),(5,6)]))); assert!(!s.contains(&set(&[(0,3),(15,16)])));"""),
"set-eq-hull": dict(prop="C07", use=P,
  edits=[("src/relns/ordering.rs", "        self.iter().eq(other.iter())", "        self.convex_count() == other.convex_count() && self.lower_bound() == other.lower_bound() && self.upper_bound() == other.upper_bound()")],
  needs="two different sets with the same number of parts and the same bounds",
  breaks="they are said to be equal though their holes differ",
  demo="""assert!(set(&[(0,3),(5,9)]) != set(&[(0,4),(6,9)])); assert!(set(&[(0,3),(5,9)]) == set(&[(0,3),(5,9)])); assert!(set(&[(0,3)]) != set(&[(0,4)]));"""),
"overlap-two-pointer": dict(prop="C07", use=P,
  edits=[("src/relns/overlap.rs", """        // todo: optimise it by using order of inner intervals
        rhs.into_iter().any(|tw| self.overlaps(&tw))""", """        // both lists are sorted: a single pass is enough
        let mut parts = self.0.iter();
        let mut part = parts.next();
        for tw in rhs {
            while let Some(ts) = part {
                if ts.upper_bound() < tw.lower_bound() { part = parts.next(); continue; }
                if ts.lower_bound() <= tw.upper_bound() { return true; }
                part = parts.next();
                break;
            }
        }
        false""")],
  needs="two sets such that a part of the second one falls in a hole of the first one, and the following part of the second one meets the part at the right of this hole",
  breaks="overlaps answers false though an instant is shared",
  demo="""let a = set(&[(0,3),(10,20),(40,41)]); let b = set(&[(5,6),(15,16)]); assert!(a.overlaps(&b)); assert!(b.overlaps(&a)); assert!(!a.overlaps(&set(&[(5,6),(22,23)])));"""),
"envelope-first-part": dict(prop="C08", use=P,
  edits=[("src/wins/mod.rs", "    #[inline] fn is_convex(&self) -> bool { self.convex_count() <= 1 }", "    #[inline] fn is_convex(&self) -> bool { self.convex_count() <= 1 || (!self.is_low_bounded() && !self.is_up_bounded()) }")],
  needs="a set of several parts which is unbounded on both sides",
  breaks="it is said to be convex, and to be the whole line of time",
  demo="""let s = !sl(0,5); assert!(!s.is_convex()); assert!(!s.is_all()); assert!(!set(&[(0,1),(5,6)]).is_convex()); assert!(TimeSlots::all().is_all());"""),
"after-past-infinite": dict(prop="C10", use=P,
  edits=[("src/wins/timeinterval.rs", """        if t.is_future_infinite() {
            Self::empty()
        } else {
            Self { lower: t, upper: T::INFINITE }""", """        if !t.is_finite() {
            Self::empty()
        } else {
            Self { lower: t, upper: T::INFINITE }""")],
  needs="the interval after the infinite past",
  breaks="it is empty instead of being the whole line of time",
  demo="""assert!(TimeSlot::after(-Timestamp::INFINITE) == TimeSlot::all()); assert!(TimeSlot::after(Timestamp::INFINITE).is_empty()); assert!(!TimeSlot::after(t(5)).is_empty());"""),
"centered-saturated": dict(prop="C10", use=P,
  edits=[("src/wins/timeinterval.rs", """        delta.is_positive().then_some(Self {
            lower: origin - delta,
            upper: origin + delta,
        })""", """        delta.is_positive().then(|| {
            let lower = origin - delta;
            Self { lower, upper: if lower.is_finite() { lower + delta + delta } else { T::INFINITE } }
        })""")],
  needs="an interval centered such that its lower bound is below the range and its upper bound is not",
  breaks="the upper bound is infinite",
  demo="""assert!(TimeSlot::centered(t(-10), v(i64::MAX - 5)).unwrap() == TimeSlot::from(..=t(i64::MAX-15))); assert!(TimeSlot::centered(t(3), v(2)).unwrap() == sl(1,5));"""),
"span-sub-slot-order": dict(prop="C11", use=P,
  edits=[("src/ops/transl.rs", """            .flat_map(|i| other.0.iter().copied().map(move |j| (i,j)))
            .map(|(a,b)| a-b)
            .collect()""", """            .flat_map(|i| other.0.iter().rev().copied().map(move |j| (i,j)))
            .map(|(a,b)| a-b)
            .fold(Self::empty(), |mut r, i| {
                // most of the time the differences come in chronological order
                match r.0.last_mut() {
                    Some(l) if i.lower <= l.upper.just_after() => { l.lower = l.lower.min(i.lower); l.upper = l.upper.max(i.upper) }
                    _ => r.0.push(i)
                }
                r
            })""")],
  needs="the difference of two sets of several parts where a difference falls back behind the last two ones",
  breaks="a hole between two parts is filled, the parts are no more disjoint",
  demo="""let a = spans(&[(0,0),(7,7)]); let b = spans(&[(0,0),(10,10)]); assert_eq!(a - b, spans(&[(-10,-10),(-3,-3),(0,0),(7,7)]));
let a = spans(&[(0,0),(7,7)]); let b = spans(&[(0,0),(2,2)]); assert_eq!(a - b, spans(&[(-2,-2),(0,0),(5,5),(7,7)]));"""),
"slot-diff-reversed": dict(prop="C11", use=P,
  edits=[("src/ops/transl.rs", """        let tw = TimeInterval::new(self - other.upper,self - other.lower);
        debug_assert!(!tw.is_empty(), "time interval translation overflows");
        tw
    }
}

//---""", """        let tw = TimeInterval::new(self - other.upper,if other.is_bounded() { self - other.lower } else { TimeValue::INFINITE });
        debug_assert!(!tw.is_empty(), "time interval translation overflows");
        tw
    }
}

//---""")],
  needs="a date minus an interval which is unbounded in the future only",
  breaks="the distances are unbounded on both sides",
  demo="""assert!(t(10) - TimeSlot::after(t(3)) == TimeSpan::before(v(7))); assert!(t(10) - TimeSlot::before(t(3)) == TimeSpan::after(v(7))); assert!(t(10) - sl(1,3) == sp(7,9));"""),
"div-negative-bounds": dict(prop="C12", use=P,
  edits=[("src/ops/scaling.rs", """                let (lower, upper) = if n < 0 {
                    // negative factor -> reverse interval
                    (self.upper / n, self.lower / n)
                } else {
                    (self.lower / n, self.upper / n)
                };
                TimeSpan { lower, upper }
            }
        }

    };""", """                let (lower, upper) = (self.lower / n, self.upper / n);
                // negative factor -> reverse interval
                if lower.is_zero() || lower <= upper && upper.is_finite() { TimeSpan { lower, upper } } else { TimeSpan { lower: lower.min(upper), upper: upper.max(lower) } }
            }
        }

    };""")],
  needs="an interval of durations divided by a negative number which is greater than the absolute value of its lower bound",
  breaks="the quotient has inverted bounds",
  demo="""assert!(sp(1,9) / -4 == sp(-2,0)); assert!(sp(4,9) / -4 == sp(-2,-1)); assert!(sp(1,9) / 4 == sp(0,2));"""),
"just-before-least": dict(prop="C13", use=P,
  edits=[("src/wins/timevalue.rs", "        Self(if self.is_finite() { self.0 - 1 } else { self.0 })", "        *self - Self(1)"),
         ("src/wins/timevalue.rs", """fn sub(self, v: TimeValue) -> Self { self + (-v) }""", """fn sub(self, v: TimeValue) -> Self { if v.is_finite() && !self.is_future_infinite() { Self::from_ticks(self.0.saturating_sub(v.0)) } else { self + (-v) } }""")],
  needs="a finite duration subtracted from the infinite past, or the date before the infinite past",
  breaks="subtracting a negative duration from minus infinity gives a finite value",
  demo="""assert!((-TimeValue::INFINITE - v(-5)).is_past_infinite()); assert!((-TimeValue::INFINITE - v(5)).is_past_infinite()); assert!(v(i64::MAX-3) - v(-7) == TimeValue::INFINITE);"""),
"millis-limit": dict(prop="C16", use=P, occ=2,
  edits=[("src/wins/timevalue.rs", "        if sec > MAX_SEC {", "        if sec >= MAX_SEC {")],
  needs="exactly the greatest representable number of seconds, given in milliseconds",
  breaks="a representable duration becomes infinite",
  demo="""let m = (i64::MAX >> 30) * 1000; assert!(TimeValue::from_millis(m).is_finite()); assert!(TimeValue::from_millis(m+999).is_finite()); assert!(!TimeValue::from_millis(m+1000).is_finite());"""),
"weeks-of-days": dict(prop="C16", use=P,
  edits=[("src/wins/convert.rs", "        if self.is_strictly_negative() { self.ceil(1.weeks()) } else { self.floor(1.weeks())}", "        if self.is_strictly_negative() { self.days().ceil(7.days()) } else { let d = self.days(); if d < 7.days() { d } else { d.floor(1.weeks()) } }")],
  needs="a duration between one and seven days truncated to weeks",
  breaks="it is truncated to days instead of zero",
  demo="""assert!(TimeValue::from_hours(50).weeks().is_zero()); assert!(TimeValue::from_days(8).weeks() == TimeValue::from_weeks(1)); assert!(TimeValue::from_days(-3).weeks().is_zero());"""),
"date-fraction-sign": dict(prop="C17", use=P + " use chrono::*;", deps='chrono = "0.4"\n',
  edits=[("src/wins/timestamp.rs", "        Self(TimeValue::from_nanos(t.timestamp_nanos_opt().unwrap()))\n    }\n}\n\n\nimpl<Tz", "        Self(TimeValue::from_secs(t.timestamp()) + TimeValue::from_nanos((t.timestamp_nanos_opt().unwrap() % 1_000_000_000).abs()))\n    }\n}\n\n\nimpl<Tz")],
  needs="a date before the origin which is not a whole number of seconds",
  breaks="the fractional part is mirrored",
  demo="""for ns in [1_500_000_000i64, -1_500_000_000, -1_250_000_000, 999_999_999] { let d = DateTime::from_timestamp_nanos(ns).naive_utc(); let x = Timestamp::from(d); let back = (x.since_origin().as_ticks() as i128 * 1_000_000_000) >> 30; assert!((back - ns as i128).abs() <= 2, "{ns} {back}"); }"""),
"incr-break-unbounded": dict(prop="C19", use=G,
  edits=[("src/graph/propagation.rs", """            let j_jo = self.lower(j,jo);
            for i in 0..self.size() {""", """            let j_jo = self.lower(j,jo);
            if j > io.max(jo) && crate::TimePoint::is_past_infinite(&j_jo) { break }
            for i in 0..self.size() {""")],
  needs="a constraint between two instants, followed by an unrelated instant, itself followed by one constrained with the first ones",
  breaks="the constraints of the last instant are not tightened",
  demo="""let mut g = TimeGraph::with_size(5); g.propagate(((0,4), sp(1,2))).unwrap(); g.propagate(((3,1), sp(5,9))).unwrap(); g.propagate(((1,0), sp(1,2))).unwrap(); assert_eq!(g.timespan(3,4), sp(7,13));"""),
"incr-skip-source-row": dict(prop="C19", use=G,
  edits=[("src/graph/propagation.rs", """        for j in 0..self.size() {
            let j_jo = self.lower(j,jo);""", """        for j in 0..self.size() {
            if j > io && j > jo && self.lower(j,io) > self.lower(j,jo) { continue } // nothing new for j
            let j_jo = self.lower(j,jo);""")],
  needs="a constraint between two instants and a third one, after both of them, which is closer to the target than to the source",
  breaks="the constraints of the third instant are not tightened through the new one",
  demo="""let mut g = TimeGraph::with_size(4); g.propagate(((2,0), sp(8,20))).unwrap(); g.propagate(((0,1), sp(-3,1))).unwrap(); g.propagate(((1,3), sp(1,4))).unwrap(); assert_eq!(g.timespan(2,3), sp(6,25));
let mut g = TimeGraph::with_size(4); g.propagate(((1,3), sp(1,4))).unwrap(); g.propagate(((2,0), sp(8,20))).unwrap(); g.propagate(((0,1), sp(-3,1))).unwrap(); assert_eq!(g.timespan(2,3), sp(6,25)); assert_eq!(g.timespan(2,1), sp(5,21));"""),
"global-diagonal-once": dict(prop="C20", use=G,
  edits=[("src/graph/propagation.rs", """                if unsafe { self.lower(i,i) }.is_strictly_positive() {""", """                if i > k && unsafe { self.lower(i,i) }.is_strictly_positive() {""")],
  needs="a bulk addition with a non null distance from the first instant to itself, and no two-way constraint with it",
  breaks="an inconsistent set of constraints is accepted",
  demo="""let mut g = TimeGraph::with_size(3); let mut h = TimeGraph::with_size(3); g.propagate(((0,1), sp(5,9))).unwrap(); h.propagate(((0,1), sp(1,3))).unwrap(); assert_eq!(d(g.merge(h)), "Err(Fatal)");
let mut g = TimeGraph::default(); assert_eq!(d(TimeGraph::extend(&mut g, vec![((0u32,0u32), sp(1,3)), ((0,1), TimeSpan::after(v(0)))])), "Err(Fatal)");"""),
"extend-at-least-one": dict(prop="C22", use=G,
  edits=[("src/graph/propagation.rs", "            (_, Some(1)) => {", "            (1, _) => {")],
  needs="a bulk addition from an iterator which announces at least one constraint and gives more of them",
  breaks="only the first constraint is added",
  demo="""let mut g = TimeGraph::with_size(3); TimeGraph::extend(&mut g, std::iter::once(((0u32,1u32), sp(1,2))).chain(vec![((1u32,2u32), sp(3,4))].into_iter().filter(|_| true))).unwrap(); assert_eq!(g.timespan(0,2), sp(4,6));
let mut g = TimeGraph::with_size(3); TimeGraph::extend(&mut g, vec![((0u32,1u32), sp(1,2)), ((1u32,2u32), sp(3,4))]).unwrap(); assert_eq!(g.timespan(0,2), sp(4,6));"""),
"extend-last-upper": dict(prop="C22", use=G,
  edits=[("src/graph/propagation.rs", """                        if *upper < -k.upper_bound() {
                            *upper = -k.upper_bound();
                        }""", """                        if *upper < -k.upper_bound() || k.is_up_bounded() && !k.is_low_bounded() {
                            *upper = -k.upper_bound();
                        }""")],
  needs="a bulk addition with two upper-bound-only constraints on the same couple, the looser one coming last",
  breaks="the looser constraint replaces the tighter one",
  demo="""let mut g = TimeGraph::with_size(2); TimeGraph::extend(&mut g, vec![((0u32,1u32), TimeSpan::before(v(4))), ((0,1), TimeSpan::before(v(9)))]).unwrap(); assert!(g.timespan(0,1) == TimeSpan::before(v(4)));
let mut g = TimeGraph::with_size(2); TimeGraph::extend(&mut g, vec![((0u32,1u32), sp(0,4)), ((0,1), sp(0,9))]).unwrap(); assert!(g.timespan(0,1) == sp(0,4));"""),
"shrink-half": dict(prop="C23", use=G,
  edits=[("src/graph/storage.rs", "                (i*i..=i*i+2*i).filter(|&x| x != i*i+i)", "                (i*i..i*i+i)")],
  needs="shrinking a graph whose last constrained instant has only constraints with a lower bound from the earlier ones",
  breaks="a constrained instant is removed",
  demo="""let mut g = TimeGraph::with_size(4); g.propagate(((0,2), TimeSpan::after(v(4)))).unwrap(); g.shrink_to_fit(); assert_eq!(g.size(), 3);
let mut g = TimeGraph::with_size(4); g.propagate(((0,2), TimeSpan::before(v(4)))).unwrap(); g.shrink_to_fit(); assert_eq!(g.size(), 3);"""),
"equiv-reverse-half": dict(prop="C24", use=G,
  edits=[("src/graph/mod.rs", "            self.to() == k.from() && self.lower_bound() == -k.upper_bound() && self.upper_bound() == -k.lower_bound()", "            self.to() == k.from() && self.upper_bound() == -k.lower_bound()")],
  needs="two constraints on the same couple, written in opposite directions, which differ by one bound only",
  breaks="they are said to be equivalent",
  demo="""assert!(!((0u32,1u32), sp(2,5)).equiv(&((1u32,0u32), sp(-5,-3)))); assert!(!((0u32,1u32), sp(2,5)).equiv(&((1u32,0u32), sp(-6,-2)))); assert!(((0u32,1u32), sp(2,5)).equiv(&((1u32,0u32), sp(-5,-2))));"""),
"instant-cmp-zero": dict(prop="C24", use=G,
  edits=[("src/graph/storage.rs", "                } else if ij == TimeValue::default() && ji == TimeValue::default() {", "                } else if ij == TimeValue::default() && ji == -TimeValue::default() || ij == -ji && i == j {"),
         ("src/graph/storage.rs", "                k.lower_bound().is_strictly_positive() || k.upper_bound().is_strictly_negative()", "                k.lower_bound().is_strictly_positive() || (k.is_bounded() && k.upper_bound().is_strictly_negative())")],
  needs="two instants constrained by a negative upper bound only",
  breaks="they are not said to be distinct",
  demo="""let mut g = TimeGraph::with_size(2); g.propagate(((0,1), TimeSpan::before(v(-4)))).unwrap(); assert!(g.are_distinct_instants(0,1)); assert!(g.are_distinct_instants(1,0));"""),
"network-text-diagonal": dict(prop="C30", use=G,
  edits=[("src/graph/storage.rs", """        self.iter().try_for_each(|k| { count += 1; writeln!(f, "   {}", k) })?;""", """        self.iter().filter(|k| !k.is_singleton() || k.lower_bound().is_strictly_positive()).try_for_each(|k| { count += 1; writeln!(f, "   {}", k) })?;""")],
  needs="the text of a network with an exact and non positive distance between two instants",
  breaks="the constraint is missing in the text",
  demo="""let mut g = TimeGraph::with_size(2); g.propagate(((0,1), sp(0,0))).unwrap(); assert!(format!("{}", g).contains("t1 - t0 in"), "{}", g); let mut g = TimeGraph::with_size(2); g.propagate(((0,1), sp(-3,1))).unwrap(); assert!(format!("{}", g).contains("t1 - t0 in"));"""),
"duration-text-seconds": dict(prop="C28", use=P,
  edits=[("src/wins/format.rs", """        let x = ticks.0 / (convert)(1).as_ticks();
        if x == 0 {""", """        let x = ticks.0 / (convert)(1).as_ticks();
        if x == 0 || ticks.0 % (convert)(1).as_ticks() >= (convert)(1).as_ticks() - 1 {""")],
  needs="the text of a duration which is one tick below a whole number of one of its units",
  breaks="the unit is missing and the next one overflows, or the whole part is lost",
  demo="""for s in [2i64, 5, 59, 3600, 7] { let x = v((s << 30) - 1).to_string(); assert!(x.contains(&format!("{}s ", (s-1) % 60)) || x.contains(&format!("{}s", (s-1) % 60)), "{}", x); }"""),
}
