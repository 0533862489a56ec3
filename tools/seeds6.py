"""Planted changes which keep something from one call to the next, and a few more elsewhere (same form as seeds.py)."""
def more(P, G, I):
    return {
"agenda-memo": dict(prop="C26", use=G,
  edits=[("src/graph/scheduler.rs", "#[derive(Clone)]\npub struct TimeScheduler<'a> {\n    constraints: &'a TimeGraph,\n    schedule: Box<[TimeSlots]>\n}\n", """pub struct TimeScheduler<'a> {
    constraints: &'a TimeGraph,
    schedule: Box<[TimeSlots]>,
    // the last accepted request, often asked again by the callers
    last: Option<(Instant, Timestamp, Timestamp)>
}

impl Clone for TimeScheduler<'_> {
    fn clone(&self) -> Self { TimeScheduler { constraints: self.constraints, schedule: self.schedule.clone(), last: None } }
}
"""), ("src/graph/scheduler.rs", "            schedule: iter::repeat(TimeSlots::all()).take(graph.size() as usize).collect()\n", "            schedule: iter::repeat(TimeSlots::all()).take(graph.size() as usize).collect(),\n            last: None\n"),
   ("src/graph/scheduler.rs", "        assert![(i as usize) < self.schedule.len(), \"index out of bounds\"];\n", """        assert![(i as usize) < self.schedule.len(), "index out of bounds"];
        let request = (!tw.is_empty()).then(|| (i, tw.lower_bound(), tw.upper_bound()));
        if request.is_some() && self.last == request { return Ok(TimePropagation::Unchanged) }
        self.last = request;
""")],
  needs="two successive requests on the same instant of the same agenda (not of a copy of it), the windows having the same bounds but not the same holes",
  breaks="the second request is ignored",
  demo="""let mut g = TimeGraph::with_size(2); g.propagate(((0,1), sp(0,2))).unwrap(); let mut a = TimeScheduler::new(&g); assert_eq!(d(a.retain(0, set(&[(0,20)]))), "Ok(Propagated)"); assert_eq!(d(a.retain(0, set(&[(0,5),(15,20)]))), "Ok(Propagated)"); assert_eq!(*a.scheduling(0).unwrap(), set(&[(0,5),(15,20)])); assert_eq!(d(a.retain(0, set(&[(0,5),(15,20)]))), "Ok(Unchanged)");"""),
"graph-retry": dict(prop="C20", use=G,
  edits=[("src/graph/mod.rs", "#[derive(Clone,Default)]\npub struct TimeGraph {\n    size : Instant,\n", "#[derive(Clone,Default)]\npub struct TimeGraph {\n    size : Instant,\n    refused : Option<(Instant,Instant,TimeValue)>, // the last refused constraint (lower bound)\n"),
   ("src/graph/propagation.rs", """                        if self.lower(k.to(), k.from()) > -k.lower_bound() {
                            //- la nouvelle contrainte ij est inconsistante
""", """                        if self.refused == Some((k.from(), k.to(), k.lower_bound())) || self.lower(k.to(), k.from()) > -k.lower_bound() {
                            //- la nouvelle contrainte ij est inconsistante
                            self.refused = Some((k.from(), k.to(), k.lower_bound()));
"""), ("src/graph/storage.rs", "        self.data.fill(-TimeValue::INFINITE);\n", "        self.refused = None;\n        self.data.fill(-TimeValue::INFINITE);\n")],
  needs="a constraint refused by the graph, the removal of one of its instants by a resize, then the same constraint again",
  breaks="the constraint is still refused",
  demo="""let mut g = TimeGraph::with_size(3); g.propagate(((0,2), sp(0,4))).unwrap(); assert_eq!(d(g.propagate(((0,2), sp(6,9)))), "Err(Recovered)"); g.resize(2); g.resize(3); assert_eq!(d(g.propagate(((0,2), sp(6,9)))), "Ok(Propagated)"); assert_eq!(g.timespan(0,2), sp(6,9)); g.reset(); assert_eq!(d(g.propagate(((0,2), sp(6,9)))), "Ok(Propagated)");"""),
"network-text-count": dict(prop="C30", use=G,
  edits=[("src/graph/storage.rs", "        let mut count = 0;\n", "        let mut count = 0u8;\n"), ("src/graph/storage.rs", "{ count += 1; writeln!", "{ count = count.saturating_add(1); writeln!")],
  needs="the text of a network of more than 255 constraints",
  breaks="the count of constraints is false",
  demo="""let n = 24; let mut g = TimeGraph::with_size(n); for i in 1..n { g.propagate(((0,i), sp(i as i64, 2*i as i64))).unwrap(); } let k = g.iter().count(); assert_eq!(k, 276); assert!(g.to_string().contains("[with 276 constraints]"), "{}", g);"""),
"network-text-elided": dict(prop="C30", use=G,
  edits=[("src/graph/storage.rs", """            for j in 0..self.size() {
                let k = format!("{:?}", unsafe { self.lower(i,j) });
                write!(f, " {:>7}", &k)?;
""", """            for j in 0..self.size() {
                let k = format!("{:?}", unsafe { self.lower(i,j) });
                // the columns are kept aligned
                if k.len() > 12 { write!(f, " {:>6}~", &k[..6])? } else { write!(f, " {:>7}", &k)? };
""")],
  needs="the debug text of a network with a duration of more than twelve digits (about an hour)",
  breaks="the durations are cut",
  demo="""let mut g = TimeGraph::with_size(2); g.propagate(((0,1), sp(0,1i64<<45))).unwrap(); assert!(format!("{:?}", g).contains("-35184372088832"), "{:?}", g);"""),
"serde-many-parts": dict(prop="C29", use=P, features=["serde"], deps='serde_json = "1.0"\n',
  edits=[("src/wins/timeset.rs", "pub struct TimeSet<T:TimePoint>(pub(crate) Vec<TimeInterval<T>>);", """pub struct TimeSet<T:TimePoint>(
    #[cfg_attr(feature="serde", serde(bound(deserialize="T: serde::Deserialize<'de>"), deserialize_with="read_parts"))]
    pub(crate) Vec<TimeInterval<T>>
);

// no more than 512 parts at once: the data could come from anywhere
#[cfg(feature="serde")]
fn read_parts<'de, T: TimePoint+serde::Deserialize<'de>, D: serde::Deserializer<'de>>(d: D) -> Result<Vec<TimeInterval<T>>, D::Error> {
    struct Parts<T>(std::marker::PhantomData<T>);
    impl<'de, T: TimePoint+serde::Deserialize<'de>> serde::de::Visitor<'de> for Parts<T> {
        type Value = Vec<TimeInterval<T>>;
        fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("a list of intervals") }
        fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut s: A) -> Result<Self::Value, A::Error> {
            let mut v: Vec<TimeInterval<T>> = Vec::with_capacity(s.size_hint().unwrap_or(0).min(512));
            while let Some(i) = s.next_element()? { if v.len() < 512 { v.push(i) } }
            Ok(v)
        }
    }
    d.deserialize_seq(Parts(std::marker::PhantomData))
}""")],
  needs="a serialised set of more than 512 parts",
  breaks="the last parts are not read back",
  demo="""let a = set(&(0..600).map(|i| (10*i,10*i+3)).collect::<Vec<_>>()); let b: TimeSlots = serde_json::from_str(&serde_json::to_string(&a).unwrap()).unwrap(); assert_eq!(b.convex_count(), 600); assert_eq!(a, b);"""),
"inter-count": dict(prop="C05", use=I,
  edits=[("src/iter/intersect.rs", """    fn size_hint(&self) -> (usize, Option<usize>)
    {
        match self.state {
            InterState::End => { (0, Some(0)) }
""", """    fn count(mut self) -> usize
    {
        // without building the intervals
        let mut n = 0;
        if let InterState::Init = self.state { if self.next().is_none() { return 0 }; n += 1; }
        let (mut i, mut j) = match self.state {
            InterState::End => return n,
            InterState::WaitI => (self.i.next(), Some(self.tmp)),
            InterState::WaitJ => (Some(self.tmp), self.j.next()),
            InterState::Init => unreachable!()
        };
        while let (Some(a), Some(b)) = (i, j) {
            if a.lower < b.upper && b.lower < a.upper || a == b { n += 1 }
            if a.upper <= b.upper { i = self.i.next() } else { j = self.j.next() }
        }
        n
    }

    fn size_hint(&self) -> (usize, Option<usize>)
    {
        match self.state {
            InterState::End => { (0, Some(0)) }
""")],
  needs="counting the intervals of a lazy intersection, two intervals after the first common one sharing only one date",
  breaks="the count is smaller than the number of intervals",
  demo="""let a = set(&[(0,3),(5,8),(12,20)]); let b = set(&[(1,2),(8,10),(13,15),(17,17)]); let n = (&a).into_iter().intersection(&b).fold(0, |n,_| n+1); assert_eq!(n, 4); assert_eq!((&a).into_iter().intersection(&b).count(), 4);"""),
"union-last": dict(prop="C05", use=I,
  edits=[("src/iter/union.rs", """    fn size_hint(&self) -> (usize, Option<usize>)
    {
        match self.state {
            UnionState::OnlyI => { self.i.size_hint() }
""", """    fn last(self) -> Option<Self::Item>
    {
        // the last one is the latest of the last ones of each side
        let state = self.state;
        let tmp = match state { UnionState::WaitI | UnionState::WaitJ => Some(self.tmp), _ => None };
        let i = match state { UnionState::OnlyJ | UnionState::End => None, _ => self.i.last() };
        let j = match state { UnionState::OnlyI | UnionState::End => None, _ => self.j.last() };
        [tmp, i, j].into_iter().flatten().reduce(|a,b| {
            let (a,b) = if a.upper < b.upper { (a,b) } else { (b,a) };
            if a.upper < b.lower.just_before() { b } else { TimeInterval { lower: a.lower.min(b.lower), upper: b.upper } }
        })
    }

    fn size_hint(&self) -> (usize, Option<usize>)
    {
        match self.state {
            UnionState::OnlyI => { self.i.size_hint() }
""")],
  needs="the last interval of a lazy union which joins at least three intervals of its operands",
  breaks="last does not start early enough",
  demo="""let a = set(&[(0,3),(5,8),(12,20)]); let b = set(&[(7,13)]); let u = (&a).into_iter().union(&b).fold(None, |_,x| Some(x)); assert_eq!(u, Some(sl(5,20))); assert_eq!((&a).into_iter().union(&b).last(), Some(sl(5,20)));"""),
"collect-halves": dict(prop="C10", use=P,
  edits=[("src/wins/timeset.rs", "        match iter.next() {\n            None => Self::empty(),", """        let mut many = vec![];
        if iter.size_hint().1.map_or(false, |n| n >= 256) {
            // a sort is faster than many unions
            many.extend(iter.by_ref());
            many.sort_unstable_by_key(|i| i.lower);
            many.dedup_by(|b,a| if a.upper >= b.lower { a.upper = b.upper; true } else { false });
        }
        let mut iter = many.into_iter().chain(iter);
        match iter.next() {
            None => Self::empty(),""")],
  needs="at least 256 intervals collected at once, one of them being inside another one",
  breaks="the end of the outer interval is lost",
  demo="""let mut v: Vec<TimeSlot> = (0..300).map(|i| sl(10*i,10*i+3)).collect(); v.push(sl(1000,1500)); let s: TimeSlots = v.iter().copied().collect(); assert!(s.contains(&t(1496))); assert!(s.contains(&sl(1000,1500))); assert_eq!(s.convex_count(), 250); let s: TimeSlots = v.into_iter().filter(|_| true).collect(); assert_eq!(s.convex_count(), 250);"""),
"envelope-cached": dict(prop="C08", use=P,
  edits=[("src/wins/timeset.rs", """            .map(TimeInterval::upper_bound)
            .unwrap_or(-Self::TimePoint::INFINITE)""", """            .map(TimeInterval::upper_bound)
            // an endless set has no greatest date
            .map(|t| if t.just_after().is_future_infinite() { t.just_after() } else { t })
            .unwrap_or(-Self::TimePoint::INFINITE)""")],
  needs="a set whose last date is the greatest finite one",
  breaks="its upper bound is infinite though it is bounded",
  demo="""let m = i64::MAX - 1; let a = set(&[(0,1),(5,m)]); assert_eq!(a.upper_bound(), t(m)); assert!(a.is_bounded()); assert_eq!(a.convex_envelope(), sl(0,m));"""),
"scale-leading-zeros": dict(prop="C14", use=P,
  edits=[("src/ops/scaling.rs", "                TimeValue::from_ticks(self.0.saturating_mul(n as i64))\n            }\n        }\n        impl Div<$scale> for TimeValue {", """                // no overflow check is needed for small values
                let n = n as i64;
                if self.0.unsigned_abs().leading_zeros() + n.unsigned_abs().leading_zeros() >= 64 {
                    TimeValue::from_ticks(self.0.wrapping_mul(n))
                } else {
                    TimeValue::from_ticks(self.0.saturating_mul(n))
                }
            }
        }
        impl Div<$scale> for TimeValue {""")],
  needs="a duration and a factor whose product is between 2^63 and 2^64, both being close below a power of two",
  breaks="the product changes its sign instead of being infinite",
  demo="""for (a,n) in [(3i64<<40, 3i64<<21), ((1<<32)-1, (1<<32)-1), (-(3i64<<40), 3i64<<21), (1<<31, 1<<31), (5, -6)] { let e = (a as i128 * n as i128).clamp(-(i64::MAX as i128), i64::MAX as i128) as i64; assert_eq!((v(a)*n).as_ticks(), e); }"""),
"listing-count": dict(prop="C24", use=G,
  edits=[("src/graph/constraints.rs", """impl<'a> Iterator for TimeConstraintFromIter<'a> {

    type Item = TimeGraphConstraint<'a>;
""", """impl<'a> Iterator for TimeConstraintFromIter<'a> {

    type Item = TimeGraphConstraint<'a>;

    // counts without building the constraints
    fn count(self) -> usize
    {
        (0..self.graph.size()).filter(|&j| self.graph.constraint(self.i, j).is_some()).count() - self.j.min(1) as usize
    }
""")],
  needs="counting what remains of the constraints from an instant after the listing of at least one of them",
  breaks="the count does not depend on how many constraints were already listed",
  demo="""let mut g = TimeGraph::with_size(5); for i in 0..4 { g.propagate(((i,i+1), sp(1,2))).unwrap(); } for i in 0..5 { for k in 0..4 { let mut a = g.constraints_from(i); for _ in 0..k { a.next(); } let mut b = g.constraints_from(i); for _ in 0..k { b.next(); } let l: usize = a.fold(0, |c,_| c+1); assert_eq!(b.count(), l); } }"""),
"seq-fold": dict(prop="C18", use=P,
  edits=[("src/seq/forward.rs", "    #[inline]\n    fn size_hint(&self) -> (usize, Option<usize>)", """    fn fold<B, F: FnMut(B, Timestamp) -> B>(self, init: B, mut f: F) -> B
    {
        // no saturating addition is needed before the last date
        let end = Timestamp(TimeValue::from_ticks(i64::MAX - self.step.as_ticks()));
        let (mut acc, mut t) = (init, self.t);
        while t < end { t += self.step; if t == end { break } acc = f(acc, t); }
        acc
    }

    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>)""")],
  needs="a forward sequence folded (collected, for example) up to the end of the representable dates, its last date being less than a period before the end",
  breaks="its last date is missing, or one comes after it",
  demo="""let m = i64::MAX; for k in 0..12 { let s = t(m-45-k).forward_sequence(v(10)); let mut c = s; let mut n = 0; while let Some(_) = c.next() { n += 1 } let f: usize = s.fold(0, |c,_| c+1); assert_eq!(f, n); }"""),
}
