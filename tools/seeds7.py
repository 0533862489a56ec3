"""Planted changes: work bounded, searches, hints (same form as seeds.py)."""
def more(P, G, I):
    return {
"agenda-budget": dict(prop="C25", use=G,
  edits=[("src/graph/scheduler.rs", "    schedule: Box<[TimeSlots]>\n}\n", "    schedule: Box<[TimeSlots]>,\n    limit: usize // the work for one request is bounded\n}\n"),
   ("src/graph/scheduler.rs", "            schedule: iter::repeat(TimeSlots::all()).take(graph.size() as usize).collect()\n", "            schedule: iter::repeat(TimeSlots::all()).take(graph.size() as usize).collect(),\n            limit: 64 + 8 * (graph.size() as usize).pow(2)\n"),
   ("src/graph/scheduler.rs", "        while let Some(i) = todo.pop() {\n", "        let mut steps = 0;\n        while let Some(i) = todo.pop() {\n            steps += 1;\n            if steps > self.limit { break }\n")],
  needs="a request whose consequences go round the same instants more than forty times (each round dropping one date of each)",
  breaks="the last consequences are not drawn: dates without any compatible partner stay in the agenda",
  demo="""let mut g = TimeGraph::with_size(3); g.propagate(((0,1), sp(0,1))).unwrap(); g.propagate(((1,2), sp(0,1))).unwrap(); g.propagate(((0,2), sp(0,1))).unwrap(); let n = 90; let w = |i: i64| { let mut v: Vec<(i64,i64)> = (0..n).map(|k| (2*k+i,2*k+i)).collect(); v.push((2*n+i,10000)); v.push((-10000,i-2)); set(&v) }; let mut a = TimeScheduler::new(&g); for i in 0..3 { let _ = a.retain(i, w(i as i64)); } assert_eq!(d(a.remove(0, TimeSlot::new(t(80),t(80)))), "Ok(Propagated)"); for i in 0..3 { assert_eq!(a.scheduling(i).unwrap().convex_count(), 2, "{:?}", a); }"""),
"union-assign-prepend": dict(prop="C02", use=P, occ=1,
  edits=[("src/ops/union.rs", "        // todo: optimise cloning\n        *self = self.clone().bitor(tw)\n", """        match self.0.first() {
            // all of it is before, and does not touch: no need of cloning
            Some(first) if tw.upper_bound() < first.lower.just_before() => self.0.insert(0, tw.into()),
            _ => *self = self.clone().bitor(tw)
        }
""")],
  needs="the in-place union of a set bounded below with an empty interval",
  breaks="the set gets an empty part",
  demo="""let mut s = set(&[(5,9)]); s |= TimeSlot::empty(); assert_eq!(s.convex_count(), 2, "{:?}", s); assert_eq!(s, set(&[(5,9)])); s |= TimeSlot::new(t(0),t(2)); assert_eq!(s, set(&[(0,2),(5,9)])); s |= TimeSlot::new(t(3),t(4)); assert_eq!(s, set(&[(0,9)]));"""),
"inter-search": dict(prop="C03", use=P,
  edits=[("src/ops/intersect.rs", "        self.into_iter().intersection(tw.into()).collect()\n", """        let i: TimeInterval<T> = tw.into();
        let first = self.0.partition_point(|p| p.upper < i.lower);
        let end = self.0.partition_point(|p| p.lower <= i.upper).max(first);
        let mut common = self.0[first..end].to_vec();
        if let Some(p) = common.first_mut() { p.lower = p.lower.max(i.lower) }
        if let Some(p) = common.last_mut() { p.upper = p.upper.min(i.upper) }
        TimeSet(common)
""")],
  needs="the intersection of the full set (kept as a set) with an empty interval",
  breaks="the result is not empty: it has one part, without any instant",
  demo="""let a = TimeSlots::all(); assert!((&a & TimeSlot::empty()).is_empty()); assert_eq!(&a & TimeSlot::new(t(1),t(4)), set(&[(1,4)])); assert_eq!(&set(&[(0,3),(6,9)]) & TimeSlot::new(t(2),t(7)), set(&[(2,3),(6,7)]));"""),
"truncate-debug-drain": dict(prop="C06", use=P, release=True,
  edits=[("src/wins/timeset.rs", "                let _ = self.0.drain(0..pos);\n", "                debug_assert_eq!(pos, self.0.drain(0..pos).count());\n")],
  needs="a library built as for a release (without debugging assertions) and the truncation of several parts",
  breaks="the parts before the date are kept",
  demo="""let mut s = set(&[(0,3),(6,9),(12,15)]); assert!(s.truncate_before(t(7))); assert_eq!(s, set(&[(7,9),(12,15)]));"""),
    }
