"""Still more planted changes (same form as seeds.py)."""
def more(P, G, I):
    return {
"mul-assign-swap-ends": dict(prop="C12", use=P,
  edits=[("src/ops/scaling.rs", """                    self.0.iter_mut().for_each(|tw| *tw *= n);
                    #[allow(unused_comparisons)] if n < 0 { self.0.reverse() }
                    // NOTE: since factor is non null integer""", """                    self.0.iter_mut().for_each(|tw| *tw *= n);
                    let last = self.0.len().saturating_sub(1);
                    #[allow(unused_comparisons)] if n < 0 && last > 0 { self.0.swap(0, last) }
                    // NOTE: since factor is non null integer""")],
  needs="a set of at least four parts scaled in place by a negative integer",
  breaks="the inner parts are not in order anymore",
  demo="""let mut s = spans(&[(0,1),(4,5),(8,9),(12,13)]); s *= -1i64; assert_eq!(s, -spans(&[(0,1),(4,5),(8,9),(12,13)])); let mut s = spans(&[(0,1),(4,5),(8,9)]); s *= -1i64; assert_eq!(s, -spans(&[(0,1),(4,5),(8,9)]));"""),
"scale-usize-wrap": dict(prop="C14", use=P,
  edits=[("src/ops/scaling.rs", "timevalscalingubig!(usize);", "timevalscalingsmall!(usize);")],
  needs="a duration multiplied or divided by a usize beyond 63 bits",
  breaks="the factor wraps around and becomes negative",
  demo="""assert_eq!(v(3) * usize::MAX, TimeValue::INFINITE); assert_eq!(v(3) / usize::MAX, v(0)); assert_eq!(v(3) * 5usize, v(15));"""),
"periods-from-multiple": dict(prop="C18", use=P,
  edits=[("src/seq/mod.rs", "        TimeSeqForward::new(self.ceil(period), period)", "        TimeSeqForward::new(self.floor(period) + period, period)")],
  needs="aligned periods from a date which is already a multiple of the period",
  breaks="the first date is missing",
  demo="""assert_eq!(t(20).forward_periods(v(5)).next(), Some(t(20))); assert_eq!(t(18).forward_periods(v(5)).next(), Some(t(20)));"""),
"value-show-infinite": dict(prop="C28", use=P,
  edits=[("src/wins/format.rs", """                write!(formatter, "+oo")
            } else {
                write!(formatter, "{}", format_duration(self.as_ticks()))""", """                write!(formatter, "oo")
            } else {
                write!(formatter, "{}", format_duration(self.as_ticks()))""")],
  needs="the text of the infinite duration alone (not in an interval)",
  breaks="the infinite duration is not written as such",
  demo="""assert_eq!(TimeValue::INFINITE.to_string(), "+oo"); assert_eq!((-TimeValue::INFINITE).to_string(), "-oo");"""),
"deadline-touch": dict(prop="C27", use=G,
  edits=[("src/graph/scheduler.rs", "        if self.schedule.iter().any(|tw| tw.lower_bound() > deadline) {", "        if self.schedule.iter().any(|tw| !tw.lower_bound().is_past_infinite() && tw.lower_bound() >= deadline) {")],
  needs="a deadline which is exactly the earliest date of an instant",
  breaks="the deadline is refused though the instant can be scheduled on it",
  demo="""let g = TimeGraph::with_size(2); let mut s = TimeScheduler::new(&g); s.retain(0, sl(5,9)).unwrap(); assert_eq!(d(s.set_deadline(t(5))), "Ok(Propagated)"); assert_eq!(s.schedule()[0], set(&[(5,5)]));"""),
"transl-half-bounded": dict(prop="C25", use=G,
  edits=[("src/iter/transl.rs", "        let tw = self.fold(TimeSet::<I::TimePoint>::empty(), |r,tw| r | (tw + *ts));", "        let mut seen = 0; let tw = self.fold(TimeSet::<I::TimePoint>::empty(), |r,tw| { seen += 1; if seen > 1 && !ts.is_bounded() { r } else { r | (tw + *ts) } });")],
  needs="slots of several parts moved by a delay bounded from above only",
  breaks="the dates which follow the later parts only are lost",
  demo="""let mut g = TimeGraph::with_size(2); g.propagate(((0,1), TimeSpan::before(v(3)))).unwrap(); let mut s = TimeScheduler::new(&g); s.retain(0, set(&[(0,2),(10,12)])).unwrap(); assert!(s.schedule()[1].contains(&t(15)), "{:?}", s);
let mut g = TimeGraph::with_size(2); g.propagate(((0,1), TimeSpan::after(v(3)))).unwrap(); let mut s = TimeScheduler::new(&g); s.retain(0, set(&[(0,2),(10,12)])).unwrap(); assert_eq!(s.schedule()[1], TimeSlots::from(t(3)..));"""),
"merge-larger-report": dict(prop="C21", use=G,
  edits=[("src/graph/propagation.rs", "        } else if swapped {", "        } else if swapped && graph_empty {"),
         ("src/graph/propagation.rs", "        let mut swapped = false;", "        let mut swapped = false; let graph_empty = self.size() == 0;")],
  needs="a graph merged with a larger one which implies all its constraints",
  breaks="the graph changes but the merge says that it did not",
  demo="""let mut g = TimeGraph::with_size(2); g.propagate(((0,1), sp(0,9))).unwrap(); let mut h = TimeGraph::with_size(3); h.propagate(((0,1), sp(2,4))).unwrap(); assert_eq!(d(g.merge(h)), "Ok(Propagated)"); assert_eq!(g.timespan(0,1), sp(2,4));"""),
"constraint-upper-only": dict(prop="C24", use=G,
  edits=[("src/graph/constraints.rs", "            if k.is_all() { None } else { Some(k) }", "            if from < to && k.lower_bound().is_past_infinite() && k.upper_bound().is_strictly_positive() || k.is_all() { None } else { Some(k) }")],
  needs="a couple constrained by a positive upper bound only",
  breaks="no constraint is reported",
  demo="""let mut g = TimeGraph::with_size(2); g.propagate(((0,1), TimeSpan::before(v(4)))).unwrap(); assert!(g.constraint(0,1).is_some()); assert!(g.constraint(1,0).is_some());"""),
"ge-hull": dict(prop="C09", use=P,
  edits=[("src/relns/ordering.rs", "                self.gt(other) || self.eq(other)", "                self.gt(other) || self.lower_bound() == other.lower_bound() && self.upper_bound() == other.upper_bound()")],
  needs="two different windows with the same bounds",
  breaks="one is said to be after or equal to the other",
  demo="""assert!(!(set(&[(0,2),(5,9)]) >= set(&[(0,3),(5,9)]))); assert!(set(&[(0,2),(5,9)]) >= set(&[(0,2),(5,9)]));"""),
"interval-eq-hull": dict(prop="C07", use=P,
  edits=[("src/relns/ordering.rs", """        other.is_convex()
            && self.lower == other.lower_bound()""", """        other.convex_count() <= 2
            && self.lower == other.lower_bound()""")],
  needs="an interval compared with a set of exactly two parts which has the same bounds",
  breaks="they are said to be equal",
  demo="""assert!(!(sl(0,9) == set(&[(0,2),(5,9)]))); assert!(!(sl(0,9) == set(&[(0,2),(4,5),(7,9)]))); assert!(sl(0,9) == set(&[(0,9)]));"""),
"two-sided-exact-once": dict(prop="C19", use=G,
  edits=[("src/graph/propagation.rs", """                                *self.lower_mut(k.to(), k.from()) = -k.upper_bound();
                                self.propagate_lower_bound(k.to(), k.from());
                            }""", """                                *self.lower_mut(k.to(), k.from()) = -k.upper_bound();
                                if self.size() < 4 || k.lower_bound() != k.upper_bound() { self.propagate_lower_bound(k.to(), k.from()); }
                            }""")],
  needs="an exact distance between two known instants of a graph of at least four instants",
  breaks="the implied upper bounds are missing",
  demo="""for n in 3..6 { let mut g = TimeGraph::with_size(n); g.propagate(((0,1), sp(0,5))).unwrap(); g.propagate(((1,2), sp(3,3))).unwrap(); assert_eq!(g.timespan(0,2), sp(3,8)); }"""),
"sum-ticks": dict(prop="C13", use=P,
  edits=[("src/wins/timevalue.rs", "        iter.fold(TimeValue::default(), |a,b| a+b)", "        Self::from_ticks(iter.fold(0, |a,b| a.saturating_add(b.0)))")],
  needs="a sum with an infinite duration followed by a finite one of the opposite sign",
  breaks="the sum is finite",
  demo="""assert_eq!([v(5), TimeValue::INFINITE, v(-3)].into_iter().sum::<TimeValue>(), TimeValue::INFINITE); assert_eq!([v(5), v(-3)].into_iter().sum::<TimeValue>(), v(2));"""),
"as-secs-towards-zero": dict(prop="C16", use=P,
  edits=[("src/wins/timevalue.rs", "    pub fn as_secs(&self) -> i64 { self.0 >> SUBSEC_BITLEN }", "    pub fn as_secs(&self) -> i64 { self.0 / (1 << SUBSEC_BITLEN) }")],
  needs="a negative duration which is not a whole number of seconds",
  breaks="the seconds and the sub-second part do not recompose the duration",
  demo="""let x = v(-(3i64 << 29)); assert_eq!(x.as_secs() * 1_000_000_000 + x.subsec_nanos() as i64, -1_500_000_000); assert_eq!(v(3i64 << 29).as_secs(), 1);"""),
"datetime-micros": dict(prop="C17", use=P, deps='chrono = "0.4"\n',
  edits=[("src/wins/timestamp.rs", """impl<Tz:TimeZone> From<DateTime<Tz>> for Timestamp
{
    #[inline]
    fn from(t: DateTime<Tz>) -> Self {
        Self(TimeValue::from_nanos(t.timestamp_nanos_opt().unwrap()))""", """impl<Tz:TimeZone> From<DateTime<Tz>> for Timestamp
{
    #[inline]
    fn from(t: DateTime<Tz>) -> Self {
        Self(TimeValue::from_micros(t.timestamp_micros()))""")],
  needs="a calendar date with a time zone which is not a whole number of microseconds",
  breaks="up to a microsecond is lost",
  demo="""use chrono::{DateTime, Utc, NaiveDateTime}; let n = NaiveDateTime::from_timestamp_opt(1_000_000, 123_456_789).unwrap(); let a = Timestamp::from(n); let b = Timestamp::from(DateTime::<Utc>::from_naive_utc_and_offset(n, Utc)); assert_eq!(a, b);"""),
"truncate-after-single": dict(prop="C06", use=P,
  edits=[("src/wins/timeset.rs", """            Some(pos) => {
                self.0.truncate(pos+1);""", """            Some(pos) => {
                self.0.truncate(if pos > 0 && unsafe { self.0.get_unchecked(pos) }.is_singleton() { pos } else { pos+1 });
                let pos = self.0.len()-1;""")],
  needs="a set truncated after a date at or behind a single instant which is not its first part",
  breaks="the single instant is lost",
  demo="""let mut s = set(&[(0,2),(5,5),(8,9)]); assert!(s.truncate_after(t(6))); assert_eq!(s, set(&[(0,2),(5,5)])); let mut s = set(&[(0,2),(5,6),(8,9)]); assert!(s.truncate_after(t(5))); assert_eq!(s, set(&[(0,2),(5,5)]));"""),
"collect-sets-last": dict(prop="C10", use=P,
  edits=[("src/wins/timeset.rs", "            .reduce(|r,s| r|s)", "            .reduce(|r,s| if s.is_singleton() && r.upper_bound() == s.lower_bound().just_before() { r } else { r|s })")],
  needs="sets collected where one is a single instant just behind all the previous ones",
  breaks="the instant is lost",
  demo="""let s: TimeSlots = [set(&[(0,2)]), set(&[(3,3)]), set(&[(7,9)])].into_iter().collect(); assert_eq!(s, set(&[(0,3),(7,9)])); let s: TimeSlots = [set(&[(0,2)]), set(&[(4,4)])].into_iter().collect(); assert_eq!(s, set(&[(0,2),(4,4)]));"""),
}
