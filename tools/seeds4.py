"""Still more planted changes (same form as seeds.py)."""
def more(P, G, I):
    return {
"union-append-touch": dict(prop="C02", use=P,
  edits=[("src/ops/union.rs", """    fn bitor(self, tw: TW) -> Self::Output {
        self.into_iter().union(tw.into()).collect()
    }
}
""", """    fn bitor(self, tw: TW) -> Self::Output {
        let mut parts = self.0.clone();
        match parts.last_mut() {
            // usual case: the set is built in chronological order
            Some(last) if last.upper < tw.lower_bound() && last.is_up_bounded() && !tw.is_empty() => parts.push(tw.into()),
            Some(last) if last.lower <= tw.lower_bound() && !tw.is_empty() => last.upper = tw.upper_bound(),
            _ => return self.into_iter().union(tw.into()).collect()
        }
        TimeSet(parts)
    }
}
""")],
  needs="the union of a set with an interval nested in its last part",
  breaks="the end of the last part is lost",
  demo="""let a = set(&[(0,1),(5,20)]); let u = &a | sl(7,9); assert_eq!(u, a); let u = a.clone() | sl(5,20); assert_eq!(u, a); assert_eq!(&a | sl(18,30), set(&[(0,1),(5,30)]));"""),
"union-assign-hull": dict(prop="C02", use=P,
  edits=[("src/ops/union.rs", """    fn bitor_assign(&mut self, tw: TW) {
        // todo: optimise cloning
        *self = self.clone().bitor(tw)""", """    fn bitor_assign(&mut self, tw: TW) {
        // nothing to do when already covered
        if self.lower_bound() <= tw.lower_bound() && tw.upper_bound() <= self.upper_bound() { return; }
        *self = self.clone().bitor(tw)""")],
  needs="the in-place union of a set with an interval placed in one of its holes",
  breaks="the interval is not added",
  demo="""let mut a = set(&[(0,1),(9,10)]); a |= sl(4,5); assert_eq!(a, set(&[(0,1),(4,5),(9,10)])); let mut a = set(&[(0,1)]); a |= sl(4,5); assert_eq!(a, set(&[(0,1),(4,5)]));"""),
"inter-assign-halfline": dict(prop="C03", use=P,
  edits=[("src/ops/intersect.rs", """        let _ = self.truncate_after(tw.upper_bound());
        let _ = self.truncate_before(tw.lower_bound());""", """        if tw.upper_bound().is_finite() { let _ = self.truncate_after(tw.upper_bound()); }
        if tw.lower_bound().is_finite() { let _ = self.truncate_before(tw.lower_bound()); }""")],
  needs="the in-place intersection of a set with the empty interval",
  breaks="the set is left as it was",
  demo="""let mut a = set(&[(0,1),(9,10)]); a &= TimeSlot::empty(); assert!(a.is_empty()); let mut a = set(&[(0,1),(9,10)]); a &= TimeSlot::from(t(1)..); assert_eq!(a, set(&[(1,1),(9,10)]));"""),
"transl-iter-backwards": dict(prop="C05", use=P + " use chronologic::iter::*;",
  edits=[("src/iter/transl.rs", "        let tw = self.fold(TimeSet::<I::TimePoint>::empty(), |r,tw| r | (tw + *ts));\n        tw.into_iter()", """        let mut last: Option<TimeInterval<I::TimePoint>> = None;
        let mut parts = Vec::new();
        for tw in self {
            let tw: TimeInterval<I::TimePoint> = (tw + *ts).into();
            match last.as_mut() {
                Some(l) if tw.lower <= l.upper => l.upper = tw.upper,
                _ => { parts.extend(last.replace(tw)); }
            }
        }
        parts.extend(last.filter(|l| !l.is_empty()));
        TimeSet(parts).into_iter()""")],
  needs="a lazy translation by an interval which makes two parts exactly adjacent, without overlapping",
  breaks="the two parts are not merged",
  demo="""let a = set(&[(0,0),(4,4)]); let ts = sp(0,3); let z: Vec<TimeSlot> = a.iter().translation(&ts).collect(); assert_eq!(z.len(), 1); assert_eq!(z[0], sl(0,7)); let ts = sp(0,2); assert_eq!(a.iter().translation(&ts).count(), 2);"""),
"merge-swapped-lazy": dict(prop="C19", use=G,
  edits=[("src/graph/propagation.rs", """        if change {
            self.global_propagation()
        } else if swapped {
            Ok(TimePropagation::Propagated)""", """        if swapped && self.data.len() == 1 || !swapped && change {
            self.global_propagation()
        } else if swapped {
            Ok(TimePropagation::Propagated)""")],
  needs="a larger graph is merged into a smaller one whose constraints combine with its own",
  breaks="the implied constraints are not deduced",
  demo="""let mut g = TimeGraph::with_size(2); g.propagate(((0,1), sp(1,2))).unwrap(); let mut h = TimeGraph::with_size(3); h.propagate(((1,2), sp(10,20))).unwrap(); g.merge(h).unwrap(); assert_eq!(g.timespan(0,2), sp(11,22));"""),
"propagate-self-loop": dict(prop="C20", use=G,
  edits=[("src/graph/propagation.rs", "            let max = k.from().max(k.to());\n            if self.size() <= max {\n                // si", "            let max = k.from().max(k.to());\n            if k.from() == k.to() && k.lower_bound().is_negative() && max < self.size() {\n                return Ok(TimePropagation::Unchanged) // an instant is simultaneous with itself\n            }\n            if self.size() <= max {\n                // si")],
  needs="a constraint from an instant to itself which only allows negative durations",
  breaks="it is accepted as unchanged",
  demo="""let mut g = TimeGraph::with_size(2); assert!(g.propagate(((1,1), sp(-5,-2))).is_err()); assert!(g.propagate(((1,1), sp(2,5))).is_err()); assert_eq!(d(g.propagate(((1,1), sp(-1,1)))), "Ok(Unchanged)");"""),
"reset-keeps-last": dict(prop="C23", use=G,
  edits=[("src/graph/storage.rs", "        self.data.fill(-TimeValue::INFINITE);\n", "        let n = self.size.saturating_sub(1);\n        let last = (n*n + 2*n) as usize;\n        let last = last.min(self.data.len());\n        self.data[..last].fill(-TimeValue::INFINITE);\n")],
  needs="a reset graph whose last instant has an upper-bounded distance from the first one, i.e. the very last cell of the matrix",
  breaks="this constraint survives the reset",
  demo="""let mut g = TimeGraph::with_size(3); g.propagate(((0,2), sp(1,5))).unwrap(); g.propagate(((1,2), sp(1,5))).unwrap(); g.reset(); for i in 0..3 { for j in 0..3 { if i != j { assert_eq!(g.timespan(i,j), TimeSpan::all()); } } }"""),
"shrink-keep-all": dict(prop="C23", use=G,
  edits=[("src/graph/storage.rs", "            ).map(|i| i+1)\n            .unwrap_or(0);", "            ).map(|i| i+1)\n            .unwrap_or(self.size);")],
  needs="fitting a graph which holds no constraint at all",
  breaks="its unconstrained instants are not removed",
  demo="""let mut g = TimeGraph::with_size(3); g.shrink_to_fit(); assert_eq!(g.size(), 0); let mut g = TimeGraph::with_size(4); g.propagate(((0,2), sp(1,5))).unwrap(); g.shrink_to_fit(); assert_eq!(g.size(), 3);"""),
"instant-cmp-touch": dict(prop="C24", use=G,
  edits=[("src/graph/storage.rs", "                if ji.is_strictly_positive() {", "                if ji.is_positive() && !ij.is_positive() {")],
  needs="two instants which could be simultaneous, the first one being otherwise later",
  breaks="they are said to be strictly ordered",
  demo="""let mut g = TimeGraph::with_size(2); g.propagate(((1,0), sp(0,5))).unwrap(); assert_eq!(g.instant_cmp(0,1), None); assert_eq!(g.instant_cmp(1,0), None); let mut g = TimeGraph::with_size(2); g.propagate(((1,0), sp(1,5))).unwrap(); assert_eq!(g.instant_cmp(0,1), Some(std::cmp::Ordering::Greater));"""),
"startline-last-date": dict(prop="C27", use=G,
  edits=[("src/graph/scheduler.rs", "if self.schedule.iter().any(|tw| tw.upper_bound() < startline) {", "if self.schedule.iter().any(|tw| tw.lower_bound() < startline && tw.is_bounded() && tw.upper_bound() <= startline) {")],
  needs="a start line exactly on the last possible date of an instant",
  breaks="the request is refused though the instant can take place on it",
  demo="""let mut g = TimeGraph::with_size(2); g.propagate(((0,1), sp(1,5))).unwrap(); let mut a = TimeScheduler::new(&g); a.retain(0, sl(10,10)).unwrap(); let mut b = a.clone(); assert!(a.set_startline(t(10)).is_ok()); b.retain(1, sl(11,12)).unwrap(); assert_eq!(d(b.set_startline(t(9))), "Ok(Unchanged)"); let mut c = TimeScheduler::new(&g); c.retain(0, sl(5,10)).unwrap(); assert!(c.set_startline(t(10)).is_ok());"""),
"contain-last-part": dict(prop="C26", use=G,
  edits=[("src/relns/contain.rs", "        rhs.into_iter().all(|tw| self.contains(&tw))", "        // the parts are in chronological order: the last ones decide\n        rhs.into_iter().skip(rhs.convex_count().saturating_sub(2)).all(|tw| self.contains(&tw))")],
  needs="a retain request by a set on an instant which already has at least three parts, where only the first part is concerned",
  breaks="the request is answered unchanged and ignored",
  demo="""let g = TimeGraph::with_size(1); let mut a = TimeScheduler::new(&g); a.retain(0, set(&[(0,1),(5,6),(9,10)])).unwrap(); assert_eq!(d(a.retain(0, set(&[(1,1),(5,6),(9,10)]))), "Ok(Propagated)"); assert_eq!(*a.scheduling(0).unwrap(), set(&[(1,1),(5,6),(9,10)])); let mut b = TimeScheduler::new(&g); b.retain(0, set(&[(0,1),(5,6)])).unwrap(); b.retain(0, set(&[(1,1),(5,6)])).unwrap(); assert_eq!(*b.scheduling(0).unwrap(), set(&[(1,1),(5,6)]));"""),
}
