"""Planted changes: id -> property, edits (path, old, new), needs, breaks, demonstration."""
P = "type S = TimeSet<Timestamp>; fn t(x: i64) -> Timestamp { Timestamp::from_origin(TimeValue::from_ticks(x)) } fn v(x: i64) -> TimeValue { TimeValue::from_ticks(x) } fn sl(a: i64, b: i64) -> TimeSlot { TimeInterval::from(t(a)..=t(b)) } fn sp(a: i64, b: i64) -> TimeSpan { TimeInterval::from(v(a)..=v(b)) } fn set(l: &[(i64,i64)]) -> TimeSlots { l.iter().map(|&(a,b)| sl(a,b)).collect() } fn spans(l: &[(i64,i64)]) -> TimeSpans { l.iter().map(|&(a,b)| sp(a,b)).collect() }"
G = P + " use chronologic::graph::*; fn d<T: std::fmt::Debug>(x: T) -> String { format!(\"{:?}\", x) } fn gs(g: &TimeGraph) -> Vec<TimeSpan> { let n = g.size(); (0..n).flat_map(|i| (0..n).map(move |j| (i,j))).map(|(i,j)| g.timespan(i,j)).collect() }"
I = P + " use chronologic::iter::*; fn ivs<I: Iterator<Item=TimeSlot>>(i: I) -> Vec<(i64,i64)> { i.map(|x| (x.lower_bound().since_origin().as_ticks(), x.upper_bound().since_origin().as_ticks())).collect() }"

SEEDS = {
"union-waitj-left-edge": dict(prop="C02", use=I,
  edits=[("src/iter/union.rs", """                            // tmp:         [--------]          or     [------------------]
                            // j:     [------------------]      or           [----------------]
                            //=>tmp   [------------------]      or     [----------------------]
                            self.state = UnionState::WaitI;
                            if self.tmp.lower > j.lower { self.tmp.lower = j.lower; }""",
   """                            // tmp:         [--------]          or     [------------------]
                            // j:     [------------------]      or           [----------------]
                            //=>tmp   [------------------]      or     [----------------------]
                            self.state = UnionState::WaitI;
                            if self.tmp.lower > j.upper { self.tmp.lower = j.lower; }""")],
  needs="the lazy union is in the state where its right operand is pulled, and the next right interval strictly covers the pending one on both sides",
  breaks="the lazy union of two sorted sources loses the instants at the left of the covering interval",
  demo="""let a = set(&[(0,1),(10,12)]); let b = set(&[(2,3),(6,20)]);
let u: TimeSlots = (&a).into_iter().union(&b).collect();
assert_eq!(u, set(&[(0,3),(6,20)])); let w: TimeSlots = (&b).into_iter().union(&a).collect();
assert_eq!(w, set(&[(0,3),(6,20)]));
let a = set(&[(0,1),(10,12),(30,40)]); let b = set(&[(4,5),(6,20)]); let a2 = set(&[(0,2),(8,9)]);
for (x,y) in [(&a,&b),(&b,&a),(&a2,&b),(&b,&a2)] { let u: TimeSlots = x.into_iter().union(y).collect(); assert_eq!(u, x.clone() | y.clone()); }"""),
"union-adjacent-not-merged": dict(prop="C01", use=P,
  edits=[("src/ops/union.rs", "        } else if self.upper < tw.lower_bound().just_before() {\n            TimeSet(vec![*self, tw.into()])", "        } else if self.upper < tw.lower_bound() {\n            TimeSet(vec![*self, tw.into()])")],
  occ=1, needs="the union of two intervals which are adjacent (exactly one tick apart), the left one being the receiver",
  breaks="the union is not in canonical form: two adjacent parts instead of one",
  demo="""let u = &sl(0,4) | sl(5,9); assert_eq!(u.convex_count(), 1); assert!(u == sl(0,9));
let u = sl(0,4) | sl(5,9); assert_eq!(u.convex_count(), 1); assert!(u == sl(0,9));"""),
"lazy-inter-sizehint": dict(prop="C05", use=I,
  edits=[("src/iter/intersect.rs", "return (0, Some(imax.saturating_add(jmax)));", "return (0, Some(imax.max(jmax)));")],
  needs="an intersection of two sources whose parts interleave so that the result has more parts than any of its operands",
  breaks="the upper bound announced by size_hint is smaller than the number of intervals really produced",
  demo="""let a = set(&[(0,10),(20,30)]); let b = set(&[(5,22),(25,40)]);
let mut i = (&a).into_iter().intersection(&b); let (l,u) = i.size_hint(); let n = i.count(); assert!(l <= n && n <= u.unwrap(), "{} {:?}", n, u);"""),
"not-least-tick": dict(prop="C04", use=P,
  edits=[("src/ops/compl.rs", "            if !first.lower.just_before().is_past_infinite() {\n                compl.push((..first.lower).into());", "            if !first.lower.is_past_infinite() {\n                compl.push((..first.lower).into());")],
  needs="the complement of a set whose first part starts on the least finite date",
  breaks="the complement contains an invalid part before the least date, so it is not canonical",
  demo="""let a: TimeSlots = set(&[(-i64::MAX+1, 0),(5,6)]); let n = !a.clone();
let e = set(&[(1,4)]) | TimeSlot::from(t(7)..); assert_eq!(n.convex_count(), 2); assert_eq!(n, e); assert!(!(n.contains(&t(-i64::MAX+1))));"""),
"truncate-before-touch": dict(prop="C06", use=P,
  edits=[("src/wins/timeset.rs", "match self.0.iter().position(|i| i.upper_bound() >= lower)", "match self.0.iter().position(|i| i.upper_bound() > lower)")],
  needs="a set truncated before a date which is exactly the last date of one of its parts",
  breaks="the instant at the end of the part is lost by the truncation",
  demo="""let mut s = set(&[(0,3),(5,7),(9,12)]); assert!(s.truncate_before(t(7))); assert_eq!(s, set(&[(7,7),(9,12)]));"""),
"set-overlap-touch": dict(prop="C07", use=P,
  edits=[("src/relns/overlap.rs", ".find(|ts| ts.upper_bound() >= rhs.lower_bound())", ".find(|ts| ts.upper_bound() > rhs.lower_bound())")],
  needs="a set and an interval which share only the last date of a part of the set",
  breaks="overlaps answers false though one instant is shared",
  demo="""let s = set(&[(0,3),(8,10)]); assert!(s.overlaps(&sl(3,5))); assert!(sl(3,5).overlaps(&s)); assert!(!s.overlaps(&sl(4,7)));"""),
"le-touching": dict(prop="C09", use=P,
  edits=[("src/relns/ordering.rs", "                self.lt(other) || self.eq(other)\n            }\n\n            #[inline]\n            fn gt", "                self.upper_bound() <= other.lower_bound() || self.eq(other)\n            }\n\n            #[inline]\n            fn gt")],
  needs="two different windows, the first one ending on the date where the second one starts",
  breaks="`<=` is true where neither `<` nor `==` is, and partial_cmp says None",
  demo="""assert!(!(sl(0,3) <= sl(3,5))); assert!(sl(0,3) <= sl(4,5)); assert!(sl(0,3) <= sl(0,3)); assert!(!(set(&[(0,1),(2,3)]) <= sl(3,5)));"""),
"set-singleton": dict(prop="C08", use=P,
  edits=[("src/wins/timeset.rs", "        (self.0.len() == 1) && unsafe", "        !self.0.is_empty() && unsafe")],
  needs="a set of several parts whose first part is a single instant",
  breaks="is_singleton is true for a set which contains several instants",
  demo="""assert!(!set(&[(0,0),(4,9)]).is_singleton()); assert!(set(&[(0,0)]).is_singleton()); assert!(!set(&[]).is_singleton());"""),
"collect-unsorted": dict(prop="C01", use=P,
  edits=[("src/wins/timeset.rs", "if i.lower_bound() > r.upper_bound().just_after() {", "if i.lower_bound() > r.upper_bound() {")],
  needs="a set collected from intervals two of which, in a row, are adjacent",
  breaks="adjacent parts are kept apart: the collected set is not canonical",
  demo="""let s = set(&[(0,3),(4,6),(9,9)]); assert_eq!(s.convex_count(), 2); assert_eq!(s, set(&[(0,6),(9,9)]));"""),
"timestamp-minus-set-order": dict(prop="C11", use=P,
  edits=[("src/ops/transl.rs", "TimeSet(other.0.into_iter().rev().map(|i| self - i).collect())", "TimeSet(other.0.into_iter().map(|i| self - i).collect())")],
  needs="a date minus a set of durations with at least two parts",
  breaks="the parts of the result are in the reverse order, so the set is not canonical",
  demo="""let s = t(0) - spans(&[(1,2),(5,6)]); assert_eq!(s, set(&[(-6,-5),(-2,-1)])); assert!(s.contains(&t(-6)));"""),
"shrink-merge-touch": dict(prop="C12", use=P,
  edits=[("src/ops/scaling.rs", "if previous.upper_bound() >= current.lower_bound().just_before() {", "if previous.upper_bound() > current.lower_bound().just_before() {")],
  needs="a set of durations divided so that two parts become exactly adjacent without overlapping",
  breaks="the parts are left adjacent: the scaled set is not canonical",
  demo="""let s: TimeSpans = spans(&[(0,8),(12,14)]) / 4i64; assert_eq!(s.convex_count(), 1); assert_eq!(s, spans(&[(0,3)]));"""),
"add-escape-min": dict(prop="C13", use=P,
  edits=[("src/wins/timevalue.rs", "Self::from_ticks(self.0.saturating_add(other.0))", "Self(self.0.saturating_add(other.0))")],
  needs="a sum of two negative finite durations which is below the range of i64",
  breaks="the sum is not minus infinite: it is an impossible value, less than minus infinite",
  demo="""let x = v(-i64::MAX+1) + v(-i64::MAX+1); assert_eq!(x.as_ticks(), -i64::MAX); assert!(x == -TimeValue::INFINITE); assert!(!x.is_finite());"""),
"subsec-carry": dict(prop="C16", use=P,
  edits=[("src/wins/timevalue.rs", "as u64 * 10_000_000_000 + 5_000_000_000) >> SUBSEC_BITLEN)/10) as i32", "as u64 * 10_000_000_000 + 10_000_000_000) >> SUBSEC_BITLEN)/10) as i32")],
  needs="the very last tick of a second (fraction (2^30-1)/2^30)",
  breaks="the sub-second part counts 1000000000 nanoseconds, i.e. a whole second",
  demo="""for k in 0..2000i64 { let x = v(5*(1<<30) + (1<<30) - 1 - k); assert!(x.subsec_nanos() < 1_000_000_000); assert!(x.subsec_millis() < 1000); }"""),
"u64-wrap": dict(prop="C16", use=P,
  edits=[("src/wins/convert.rs", "convert_safely!(u64, |x| if x > i64::MAX as u64 { i64::MAX } else { x as i64 });", "convert_safely!(u64, |x| x as i64);")],
  needs="a duration built from an unsigned 64-bit number greater than i64::MAX",
  breaks="the duration is negative instead of infinite",
  demo="""assert_eq!(u64::MAX.secs(), TimeValue::INFINITE); assert_eq!((1u64<<63).ticks(), TimeValue::INFINITE); assert_eq!(5u64.secs().as_secs(), 5);"""),
"from-fract-floor": dict(prop="C16", use=P,
  edits=[("src/wins/timevalue.rs", "        let sec = t/unit;\n", "        let sec = t.div_euclid(unit);\n")],
  needs="a negative number of milli, micro or nanoseconds which is not a whole number of seconds",
  breaks="the duration of -n is not the opposite of the duration of n (rounded downwards rather than towards zero)",
  demo="""for n in [1i64, 7, 1001, 999_999_999, 123_456_789_123] { assert_eq!(TimeValue::from_nanos(-n), -TimeValue::from_nanos(n)); assert_eq!(TimeValue::from_millis(-n), -TimeValue::from_millis(n)); }"""),
"seq-exhaust": dict(prop="C18", use=P,
  edits=[("src/seq/forward.rs", "            self.t = Timestamp::INFINITE;\n", "            // nothing remains\n")],
  needs="nth called beyond the end of a forward sequence, and the sequence used afterwards",
  breaks="the sequence yields dates again after nth has answered None",
  demo="""let mut s = t(i64::MAX-25).forward_sequence(v(10)); assert!(s.nth(50).is_none()); assert!(s.next().is_none());"""),
"incr-source-column": dict(prop="C19", use=G,
  edits=[("src/graph/propagation.rs", "        for j in 0..self.size() {\n            let j_jo = self.lower(j,jo);\n            for i in 0..self.size() {", "        for j in 0..self.size() {\n            let j_jo = self.lower(j,jo);\n            for i in 0..j {")],
  needs="a constraint added behind an existing one such that the implied constraint goes from a smaller to a greater instant",
  breaks="the propagation is incomplete: implied constraints between existing instants are not deduced",
  demo="""let mut g = TimeGraph::with_size(4); for (i,j) in [(1,2),(0,1),(2,3),(3,0)] { let _ = g.propagate(((i,j), sp(1,i as i64*3+5))); }
let mut h = TimeGraph::with_size(4); let r = h.extend([((1u32,2u32), sp(1,8)),((0,1),sp(1,5)),((2,3),sp(1,11))]);
let mut g = TimeGraph::with_size(4); for (i,j,u) in [(1u32,2u32,8),(0,1,5),(2,3,11)] { g.propagate(((i,j), sp(1,u))).unwrap(); }
assert_eq!(gs(&g), gs(&h)); assert_eq!(g.timespan(0,3), sp(3,24));
let mut g = TimeGraph::with_size(4); for (i,j,u) in [(2u32,3u32,11),(1,2,8),(0,1,5)] { g.propagate(((i,j), sp(1,u))).unwrap(); }
assert_eq!(gs(&g), gs(&h));"""),
"recover-late": dict(prop="C20", use=G,
  edits=[("src/graph/propagation.rs", "                        } else if self.lower(k.from(), k.to()) > k.upper_bound() {", "                        } else if crate::TimePoint::just_before(&self.lower(k.from(), k.to())) > k.upper_bound() {")],
  needs="a constraint which is inconsistent with the graph by exactly one tick, on its upper bound",
  breaks="the inconsistent constraint is accepted and propagated",
  demo="""let mut g = TimeGraph::with_size(3); g.propagate(((0,1), sp(2,9))).unwrap(); g.propagate(((1,2), sp(3,9))).unwrap(); let b = gs(&g);
assert_eq!(d(g.propagate(((0,2), sp(0,4)))), "Err(Recovered)"); assert_eq!(gs(&g), b);
assert_eq!(d(g.propagate(((0,2), sp(0,5)))), "Ok(Propagated)");"""),
"merge-only-common-rows": dict(prop="C22", use=G,
  edits=[("src/graph/propagation.rs", "            .for_each(|(a,b)| if *a < b { *a = b; change = true; });", "            .for_each(|(a,b)| if *a < b && (a.as_ticks() != -i64::MAX || !change) { *a = b; change = true; });")],
  needs="merging a graph with at least two new constraints on couples which were not constrained",
  breaks="only the first new constraint is kept by the merge",
  demo="""let mut g = TimeGraph::with_size(4); g.propagate(((0,1), sp(2,9))).unwrap(); let mut h = TimeGraph::with_size(4); h.propagate(((2,3), sp(3,9))).unwrap(); h.propagate(((1,2), sp(1,1))).unwrap();
g.merge(h).unwrap(); assert_eq!(g.timespan(0,1), sp(2,9)); assert_eq!(g.timespan(2,3), sp(3,9)); assert_eq!(g.timespan(0,3), sp(6,19));"""),
"resize-grow-only": dict(prop="C23", use=G,
  edits=[("src/graph/storage.rs", "        self.data.resize((n * n) as usize, -TimeValue::INFINITE);\n", "        if n >= self.size { self.data.resize((n * n) as usize, -TimeValue::INFINITE); }\n")],
  needs="a graph made smaller and then larger again, with constraints on the removed instants",
  breaks="the constraints of the removed instants come back when the graph grows again",
  demo="""let mut g = TimeGraph::with_size(3); g.propagate(((1,2), sp(2,9))).unwrap(); g.resize(2); g.resize(3); assert_eq!(g.timespan(1,2), TimeInterval::all()); assert_eq!(g.timespan(2,2), sp(0,0));"""),
"constraint-iter-oneway": dict(prop="C24", use=G,
  edits=[("src/graph/constraints.rs", "                    || unsafe { !self.graph.lower(self.j,self.i).is_past_infinite() }\n                {\n                    return Some(TimeGraphConstraint {\n                        from: self.i,\n                        to: self.j,", "                {\n                    return Some(TimeGraphConstraint {\n                        from: self.i,\n                        to: self.j,")],
  needs="a couple of instants which is constrained by an upper bound only",
  breaks="the iteration over the constraints of the graph skips the half-constrained couples",
  demo="""let mut g = TimeGraph::with_size(3); g.propagate(((0,1), TimeSpan::before(v(5)))).unwrap(); g.propagate(((2,1), TimeSpan::before(v(5)))).unwrap(); g.propagate(((0,2), TimeSpan::after(v(-50)))).unwrap();
let n = g.iter().count(); assert_eq!(n, 3);"""),
"deadline-result": dict(prop="C27", use=G,
  edits=[("src/graph/scheduler.rs", "                          match self.retain(i, ..=deadline).unwrap() {\n                              TimePropagation::Unchanged => { result }", "                          match self.retain(i, ..=deadline).unwrap() {\n                              TimePropagation::Unchanged => { TimePropagation::Unchanged }")],
  needs="a deadline which changes the slots of an instant but not those of the last one",
  breaks="set_deadline answers Unchanged though the agenda has changed",
  demo="""let mut g = TimeGraph::with_size(2); g.propagate(((0,1), sp(0,9))).unwrap(); let mut s = TimeScheduler::new(&g);
let h = TimeGraph::with_size(2); let mut s = TimeScheduler::new(&h); s.retain(1, sl(0,20)).unwrap();
assert_eq!(d(s.set_deadline(t(50))), "Ok(Propagated)"); assert_eq!(d(s.set_deadline(t(50))), "Ok(Unchanged)");"""),
"startline-exact": dict(prop="C27", use=G,
  edits=[("src/graph/scheduler.rs", "if self.schedule.iter().any(|tw| tw.upper_bound() < startline) {", "if self.schedule.iter().any(|tw| tw.upper_bound() <= startline) {")],
  needs="a start line which is exactly the last possible date of an instant",
  breaks="a feasible start line is refused",
  demo="""let h = TimeGraph::with_size(2); let mut s = TimeScheduler::new(&h); s.retain(1, sl(0,20)).unwrap();
assert_eq!(d(s.set_startline(t(20))), "Ok(Propagated)"); assert_eq!(s.scheduling(1).unwrap().clone(), set(&[(20,20)]));"""),

"scale-u32-narrow": dict(prop="C14", use=P,
  edits=[("src/ops/scaling.rs", "                TimeValue::from_ticks(self.0.saturating_mul(n as i64))\n            }\n        }\n        impl Div<$scale> for TimeValue {", "                TimeValue::from_ticks(self.0.saturating_mul(n as i32 as i64))\n            }\n        }\n        impl Div<$scale> for TimeValue {")],
  needs="a duration multiplied by a factor beyond 32 bits",
  breaks="the factor is truncated, even taken as a negative number",
  demo="""assert_eq!(v(3) * 3_000_000_000u32, v(9_000_000_000)); assert_eq!(v(3) * 7i64, v(21)); assert_eq!(v(3) * 7_000_000_000i64, v(21_000_000_000));"""),
"floor-negative-multiple": dict(prop="C15", use=P,
  edits=[("src/wins/timevalue.rs", "                ((self.0+1)/period.0-1)*period.0\n", "                let n = self.0/period.0;\n                if n*period.0 == self.0 && period.0 < (1 << SUBSEC_BITLEN) { n*period.0 } else { (n-1)*period.0 }\n")],
  needs="a negative value which is an exact multiple of a period of one second or more",
  breaks="a multiple of the period is rounded down to the previous multiple",
  demo="""assert_eq!(TimeValue::from_secs(-60).floor(TimeValue::from_secs(20)), TimeValue::from_secs(-60)); assert_eq!(v(-60).floor(v(20)), v(-60)); assert_eq!(v(-61).floor(v(20)), v(-80));"""),
"ceil-just-below": dict(prop="C15", use=P,
  edits=[("src/wins/timevalue.rs", "                ((self.0-1)/period.0+1)*period.0\n", "                ((self.0 as f64)/(period.0 as f64)).ceil() as i64 * period.0\n")],
  needs="a positive value too large for 53 bits, close to a multiple of the period",
  breaks="the value is rounded up to the wrong multiple",
  demo="""let a = (1i64<<60)+1; assert_eq!(v(a).ceil(v(2)), v(a+1)); assert_eq!(v(13).ceil(v(5)), v(15)); assert_eq!(v((1i64<<58)+9).ceil(v(4)), v((1i64<<58)+12));"""),
"chrono-float": dict(prop="C17", use=P, deps='chrono = { version = "0.4.40", default-features = false, features = ["alloc"] }\n',
  edits=[("src/wins/timevalue.rs", "            ((value.0 as i128 * 1_000_000_000) >> SUBSEC_BITLEN) as i64\n", "            (value.0 as f64 * 1e9 / (1u64 << SUBSEC_BITLEN) as f64) as i64\n")],
  needs="a duration or date too large for 53 bits (more than a hundred days)",
  breaks="the conversion to the calendar library loses more than one nanosecond",
  demo="""for x in [1i64<<53, (1<<61)+12345, (1_700_000_000i64<<30) + 77_777_777] { let d: chrono::Duration = v(x).into(); let ns = (x as i128 * 1_000_000_000) >> 30; assert!((d.num_nanoseconds().unwrap() as i128 - ns).abs() < 2, "{x}"); }"""),
"std-nanos-round": dict(prop="C17", use=P,
  edits=[("src/wins/timevalue.rs", "            Self( ((sec as i64)<<SUBSEC_BITLEN) + ((ns<<SUBSEC_BITLEN)/1_000_000_000))", "            Self( ((sec as i64)<<SUBSEC_BITLEN) + ((ns<<SUBSEC_BITLEN)/1_000_000_000 & !((sec as i64) >> 28)))")],
  needs="a standard duration longer than eight years with a fractional part",
  breaks="the fractional part is altered by several nanoseconds",
  demo="""for s in [5u64, 1<<28, (1<<33)-1, (1<<29)+7] { for n in [1u32, 77, 999_999_999] { let d = std::time::Duration::new(s, n); let x: TimeValue = d.into(); let ns = (x.as_ticks() as i128 * 1_000_000_000) >> 30; assert!((d.as_nanos() as i128 - ns).abs() < 2); } }"""),
"implied-upper-propagated": dict(prop="C21", use=G,
  edits=[("src/graph/propagation.rs", "                        if -k.upper_bound() <= self.lower(k.to(), k.from()) {", "                        let known = self.lower(k.to(), k.from());\n                        if if k.from() > k.to() && known.is_strictly_positive() { -k.upper_bound() < known } else { -k.upper_bound() <= known } {")],
  needs="a constraint from an instant to an earlier one with a smaller index, which is implied by the graph with exactly the known negative upper bound",
  breaks="propagate answers Propagated though nothing has changed",
  demo="""let mut g = TimeGraph::with_size(3); assert_eq!(d(g.propagate(((0,1), sp(2,9)))), "Ok(Propagated)"); assert_eq!(d(g.propagate(((0,1), sp(2,9)))), "Ok(Unchanged)"); assert_eq!(d(g.propagate(((1,0), sp(-9,0)))), "Ok(Unchanged)"); assert_eq!(d(g.propagate(((1,0), sp(-9,-2)))), "Ok(Unchanged)");"""),
"merge-change-last": dict(prop="C21", use=G,
  edits=[("src/graph/propagation.rs", "            .for_each(|(a,b)| if *a < b { *a = b; change = true; });\n        if change {", "            .for_each(|(a,b)| { change = *a < b; if change { *a = b; } });\n        if change {")],
  needs="a merge whose last couple of instants brings nothing new, although other couples do",
  breaks="the merge answers Unchanged (and does not propagate) though constraints have changed",
  demo="""let mut g = TimeGraph::with_size(3); g.propagate(((0,1), sp(2,9))).unwrap(); let mut h = TimeGraph::with_size(3); h.propagate(((1,2), sp(3,9))).unwrap();
assert_eq!(d(g.merge(h)), "Ok(Propagated)"); assert_eq!(g.timespan(0,2), sp(5,18));"""),
"retain-hull": dict(prop="C26", use=G,
  edits=[("src/graph/scheduler.rs", "            if tw.contains(self.schedule.get_unchecked(i as usize)) {", "            if self.schedule.get_unchecked(i as usize).iter().all(|s| tw.lower_bound() <= s.lower_bound() && s.upper_bound() <= tw.upper_bound()) {")],
  needs="retaining a window with a hole inside a bounded agenda entry",
  breaks="the request is answered unchanged and ignored although it removes dates",
  demo="""let g = TimeGraph::with_size(2); let mut s = TimeScheduler::new(&g); s.retain(1, sl(0,20)).unwrap(); assert_eq!(d(s.retain(1, set(&[(0,5),(8,20)]))), "Ok(Propagated)"); assert_eq!(s.scheduling(1).unwrap().clone(), set(&[(0,5),(8,20)]));"""),
"transl-first-empty": dict(prop="C25", use=G,
  edits=[("src/iter/transl.rs", "        let tw = self.fold(TimeSet::<I::TimePoint>::empty(), |r,tw| r | (tw + *ts));", "        let tw = self.fold(TimeSet::<I::TimePoint>::empty(), |r,tw| if r.is_up_bounded() && tw.is_singleton() { r } else { r | (tw + *ts) });")],
  needs="slots made of several parts, one which is not the first being a single date",
  breaks="dates which belong to a complete assignment are dropped from the other instants",
  demo="""let mut g = TimeGraph::with_size(2); g.propagate(((0,1), sp(1,2))).unwrap(); let mut s = TimeScheduler::new(&g); s.retain(0, set(&[(0,5),(30,30)])).unwrap(); assert_eq!(s.scheduling(1).unwrap().clone(), set(&[(1,7),(31,32)]));"""),
"latest-beginning-last": dict(prop="C27", use=G,
  edits=[("src/graph/scheduler.rs", "        self.schedule.iter().map(|i| i.lower_bound()).max().unwrap()", "        self.schedule.iter().max_by_key(|i| i.upper_bound()).unwrap().lower_bound()")],
  needs="an agenda where the instant with the greatest last date is not the one with the greatest first date",
  breaks="earliest_ending is not the greatest of the first dates",
  demo="""let g = TimeGraph::with_size(2); let mut s = TimeScheduler::new(&g); s.retain(0, sl(0,100)).unwrap(); s.retain(1, sl(50,60)).unwrap(); assert_eq!(s.earliest_ending(), t(50));"""),
"set-display-debug": dict(prop="C28", use=P,
  edits=[("src/wins/format.rs", "            iter.try_for_each(|tw| write!(formatter, \"U{}\", tw))", "            iter.try_for_each(|tw| if tw.is_up_bounded() { write!(formatter, \"U{}\", tw) } else { write!(formatter, \"U[{},+oo[\", tw.upper_bound()) })")],
  needs="the text of a set of at least two parts, the last one unbounded",
  breaks="the lower bound of the last part is displayed as infinite",
  demo="""let s: TimeSpans = [sp(0,0), TimeSpan::after(TimeValue::from_secs(5))].into_iter().collect(); assert_eq!(s.to_string(), "{0}U[5s,+oo["); let s = spans(&[(0,0)]); assert_eq!(s.to_string(), "{0}");"""),
"duration-text-carry": dict(prop="C28", use=P,
  edits=[("src/wins/format.rs", "    let ticks = concat_unit(ticks, TimeValue::from_days, \"d\");", "    let ticks = if ticks.0 < TimeValue::from_days(30).as_ticks() { concat_unit(ticks, TimeValue::from_days, \"d\") } else { ticks };")],
  needs="the text of a duration whose part below the month is thirty days or more",
  breaks="the thirty days are written as hundreds of hours",
  demo="""assert_eq!(TimeValue::from_secs(30*86400 + 5).to_string(), "30d 5s"); assert_eq!(TimeValue::from_days(29).to_string(), "29d");"""),
"serde-float": dict(prop="C29", use=P, features=["serde"], deps='serde_json = "1.0"\n',
  edits=[("src/wins/timevalue.rs", "#[cfg_attr(feature=\"serde\", derive(serde::Serialize, serde::Deserialize))]", "#[cfg_attr(feature=\"serde\", derive(serde::Serialize, serde::Deserialize), serde(into=\"f64\", from=\"f64\"))]"),
         ("src/wins/timevalue.rs", "impl Neg for TimeValue\n{\n    type Output = Self;", "impl From<f64> for TimeValue { fn from(s: f64) -> Self { TimeValue::from_ticks((s * (1u64 << SUBSEC_BITLEN) as f64) as i64) } }\nimpl From<TimeValue> for f64 { fn from(t: TimeValue) -> f64 { t.0 as f64 / (1u64 << SUBSEC_BITLEN) as f64 } }\n\nimpl Neg for TimeValue\n{\n    type Output = Self;")],
  needs="a value which needs more than 53 significant bits",
  breaks="the value read back is slightly different from the one written",
  demo="""for x in [5i64, -7, (1<<60)+1, i64::MAX, -i64::MAX] { let y: TimeValue = serde_json::from_str(&serde_json::to_string(&v(x)).unwrap()).unwrap(); assert_eq!(y, v(x)); }"""),
"serde-skip-unbounded": dict(prop="C29", use=P, features=["serde"], deps='serde_json = "1.0"\n',
  edits=[("src/wins/timeinterval.rs", "pub struct TimeInterval<T:TimePoint> { pub(crate) lower:T, pub(crate) upper:T }", "#[cfg_attr(feature=\"serde\", serde(bound(serialize=\"T:serde::Serialize\", deserialize=\"T:serde::Deserialize<'de>\")))]\npub struct TimeInterval<T:TimePoint> {\n    pub(crate) lower:T,\n    #[cfg_attr(feature=\"serde\", serde(skip_serializing_if = \"TimePoint::is_future_infinite\", default = \"unbounded\"))]\n    pub(crate) upper:T\n}\n#[cfg(feature=\"serde\")]\nfn unbounded<T:TimePoint>() -> T { -T::INFINITE }")],
  needs="an interval unbounded in the future, written and read back",
  breaks="the interval read back is empty",
  demo="""for i in [sp(0,5), TimeSpan::after(v(5)), TimeSpan::all(), TimeSpan::empty()] { let y: TimeSpan = serde_json::from_str(&serde_json::to_string(&i).unwrap()).unwrap(); assert_eq!(y, i); }"""),
"agenda-text-skip": dict(prop="C30", use=G,
  edits=[("src/graph/scheduler.rs", "        self.schedule.iter()\n            .enumerate()\n            .map(|(i,tw)| format!(\"t{} in {}\\n\", i,tw.format_timeset(timefmt)))", "        self.schedule.iter()\n            .filter(|tw| tw.is_low_bounded() || tw.is_up_bounded())\n            .enumerate()\n            .map(|(i,tw)| format!(\"t{} in {}\\n\", i,tw.format_timeset(timefmt)))")],
  needs="a formatted agenda where an instant which is not the last one is unbounded",
  breaks="the lines name the wrong instants",
  demo="""let g = TimeGraph::with_size(3); let mut s = TimeScheduler::new(&g); s.retain(1, TimeSlot::singleton(t(0))).unwrap(); assert_eq!(s.format_timeset("%M:%S"), "t0 in ]-oo,+oo[\\nt1 in {00:00}\\nt2 in ]-oo,+oo[\\n");"""),
"link-text-reverse": dict(prop="C30", use=G,
  edits=[("src/graph/constraints.rs", "        write!(f, \"t{} - t{} in {}\", self.to, self.from, k)", "        if k.upper.is_strictly_negative() { write!(f, \"t{} - t{} in {}\", self.from, self.to, k) } else { write!(f, \"t{} - t{} in {}\", self.to, self.from, k) }")],
  needs="the text of a constraint from an instant to an earlier one",
  breaks="the two instants are swapped in the text while the span is not reversed",
  demo="""let mut g = TimeGraph::with_size(2); g.propagate(((1,0), TimeSpan::singleton(TimeValue::from_secs(4)))).unwrap(); assert_eq!(format!("{}", g.constraint(1,0).unwrap()), "t0 - t1 in {4s}"); assert_eq!(format!("{}", g.constraint(0,1).unwrap()), "t1 - t0 in {- 4s}");"""),
}

from seeds2 import more
SEEDS.update(more(P, G, I))
from seeds3 import more as more3
SEEDS.update(more3(P, G, I))
from seeds4 import more as more4
SEEDS.update(more4(P, G, I))
from seeds5 import more as more5
from seeds6 import more as more6
SEEDS.update(more5(P, G, I))
SEEDS.update(more6(P, G, I))
from seeds7 import more as more7
SEEDS.update(more7(P, G, I))
