"""Planted changes which need large inputs, and a few more elsewhere (same form as seeds.py)."""
def more(P, G, I):
    return {
"truncate-bsearch": dict(prop="C01", use=P,
  edits=[("src/wins/timeset.rs", "match self.0.iter().position(|i| i.upper_bound() >= lower)", """let position = if self.0.len() < 16 {
            self.0.iter().position(|i| i.upper_bound() >= lower)
        } else {
            // a binary search is faster as soon as there are many parts
            match self.0.binary_search_by(|i| i.lower_bound().cmp(&lower)) {
                Ok(i) => Some(i),
                Err(0) => Some(0),
                Err(i) => Some(i-1)
            }
        };
        match position""")],
  needs="a set of at least sixteen parts truncated before a date which lies in one of its holes",
  breaks="the set keeps a part without instant, so it is not canonical",
  demo="""let mut a = set(&(0..20).map(|i| (10*i,10*i+3)).collect::<Vec<_>>()); a.truncate_before(t(55)); assert_eq!(a.convex_count(), 14); assert_eq!(a.lower_bound(), t(60)); assert!(a.iter().all(|p| !p.is_empty()));
let mut b = set(&[(0,3),(10,13),(20,23)]); b.truncate_before(t(15)); assert_eq!(b, set(&[(20,23)]));"""),
"contains-gallop": dict(prop="C07", use=P,
  edits=[("src/relns/contain.rs", "        rhs.into_iter().all(|tw| self.contains(&tw))", """        // the parts are in chronological order, so the search is resumed from the previous one
        let mut pos = 0;
        rhs.into_iter().all(|tw| {
            while pos + 32 < self.0.len() && self.0[pos + 32].lower < tw.lower { pos += 32; }
            self.0[pos..].iter().take(32).any(|i| i.contains(&tw))
        })""")],
  needs="a set compared with a set whose parts are all in its own, one of them starting exactly as its thirty-third part",
  breaks="contains answers false",
  demo="""let a = set(&(0..70).map(|i| (10*i,10*i+3)).collect::<Vec<_>>()); let b = set(&[(0,1),(321,323),(691,691)]); assert!(a.contains(&b)); assert!(a.contains(&a)); let c = set(&(0..33).map(|i| (10*i,10*i+3)).collect::<Vec<_>>()); assert!(c.contains(&c)); let h = TimeSlots::from(sl(305,306)) | sl(0,3); assert!(!a.contains(&h)); let z = TimeSlots::from(t(0)..) ; assert!(z.contains(&a)); let y = set(&(0..33).map(|i| (10*i,10*i+3)).collect::<Vec<_>>()) | sl(325,329); assert!(y.contains(&set(&[(318,318)])) == false);"""),
"overlaps-shorter": dict(prop="C07", use=P,
  edits=[("src/relns/overlap.rs", "        rhs.into_iter().any(|tw| self.overlaps(&tw))", """        // looks for the parts of the shortest one
        if rhs.0.len() > 8 * self.0.len() {
            let (first, last) = (rhs.0.partition_point(|i| i.upper < self.lower_bound()),
                                 rhs.0.partition_point(|i| i.lower <= self.upper_bound()));
            first < last
        } else {
            rhs.into_iter().any(|tw| self.overlaps(&tw))
        }""")],
  needs="a set of at least two parts and a set of more than eight times as many parts, all of those which are between the bounds of the first one being in its holes",
  breaks="overlaps answers true",
  demo="""let a = set(&[(0,1),(100,101)]); let b = set(&(0..20).map(|i| (10+3*i,10+3*i)).collect::<Vec<_>>()); assert!(!a.overlaps(&b)); assert!(!b.overlaps(&a)); assert!(!(set(&[(0,0),(50,50)]).overlaps(&set(&[(10,10),(20,20)]))));"""),
"neg-blocks": dict(prop="C11", use=P,
  edits=[("src/ops/transl.rs", "        TimeSet(other.0.into_iter().rev().map(|i| self - i).collect())", """        let mut slots = other.0.into_iter().map(|i| self - i).collect::<Vec<_>>();
        // the sort is cheap on an already reversed list
        let n = slots.len();
        (0..(n/2).min(u8::MAX as usize / 2)).for_each(|i| slots.swap(i, n-1-i));
        TimeSet(slots)""")],
  needs="a date minus a set of at least 256 durations",
  breaks="the parts in the middle of the result are not in order",
  demo="""let n = 300; let s: TimeSpans = (0..n).map(|i| sp(10*i,10*i+3)).collect(); let r = t(0) - s; let w: Vec<_> = r.iter().collect(); assert_eq!(w.len(), n as usize); assert!(w.windows(2).all(|p| p[0].upper_bound() < p[1].lower_bound())); assert_eq!(w[150].lower_bound(), t(-(10*(n-151)+3)));"""),
"propagate-rows-u8": dict(prop="C19", use=G,
  edits=[("src/graph/propagation.rs", """                let k = self.lower_mut(i, jo);
                if val > *k { *k = val; }
            }
        }
""", """                let k = self.lower_mut(i, jo);
                if val > *k { *k = val; rows[(i >> 1) as u8 as usize] = true; }
            }
        }
"""), ("src/graph/propagation.rs", """            let io_jo =  self.lower(io, jo);
            for i""", """            let io_jo =  self.lower(io, jo);
            rows[(io as u8 >> 1) as usize] = true;
            for i"""), ("src/graph/propagation.rs", """        //- boucle autour du noeud io
""", """        //- les lignes a propager (par paire de noeuds)
        let mut rows = [false; 256];

        //- boucle autour du noeud io
"""), ("src/graph/propagation.rs", """            let j_jo = self.lower(j,jo);
            for i""", """            if !rows[(j >> 1) as u8 as usize] { continue; }
            let j_jo = self.lower(j,jo);
            for i""")],
  needs="a constraint which starts on an instant with an index of at least 256, in a graph where an instant follows its end",
  breaks="the constraint is not propagated beyond its end",
  demo="""let mut g = TimeGraph::with_size(300); g.propagate(((3,4), sp(1,2))).unwrap(); g.propagate(((290,3), sp(10,20))).unwrap(); assert_eq!(g.timespan(290,4), sp(11,22)); g.propagate(((0,290), sp(5,5))).unwrap(); assert_eq!(g.timespan(0,4), sp(16,27));"""),
"extend-few": dict(prop="C20", use=G,
  edits=[("src/graph/propagation.rs", """            (_, Some(1)) => {
                match iter.next() {
                    None => Ok(TimePropagation::Unchanged),
                    Some(k) => self.propagate(k)
                }
            }""", """            (_, Some(n)) if n <= 4 => {
                // the incremental propagation is cheaper for few constraints
                iter.try_fold(TimePropagation::Unchanged,
                    |result, k| match self.propagate(k)? {
                        TimePropagation::Unchanged => Ok(result),
                        change => Ok(change)
                    })
            }""")],
  needs="a bulk addition of two to four constraints where one after the first is inconsistent",
  breaks="the failure is reported as recovered though the first constraints are kept",
  demo="""let mut g = TimeGraph::with_size(3); g.propagate(((0,1), sp(1,5))).unwrap(); let before = gs(&g); let r = g.extend([((1,2), sp(1,2)), ((0,1), sp(7,8)), ((0,2), sp(0,90))]); let s = d(r); assert!(s.starts_with("Err")); if s == "Err(Recovered)" { assert_eq!(gs(&g), before); } else { assert_eq!(g.size(), 0); }"""),
"listing-isolated": dict(prop="C24", use=G,
  edits=[("src/graph/constraints.rs", """                    self.i += 1;
                    if self.i == self.graph.size() {
                        return None;
                    }
                    self.j = self.i;
""", """                    self.i += 1;
                    // an instant which is not ordered with the next one starts no other constraint
                    while self.i + 64 < self.graph.size()
                        && unsafe { self.graph.lower(self.i, self.i+1) }.is_past_infinite()
                        && unsafe { self.graph.lower(self.i+1, self.i) }.is_past_infinite() { self.i += 1; }
                    if self.i == self.graph.size() {
                        return None;
                    }
                    self.j = self.i;
""")],
  needs="a graph of more than 65 instants where an instant, among the first ones but not the very first, is constrained with a later instant but not with the next one",
  breaks="the listing forgets the constraints of this instant",
  demo="""let mut g = TimeGraph::with_size(70); g.propagate(((2,4), sp(1,5))).unwrap(); g.propagate(((68,69), sp(1,5))).unwrap(); assert_eq!(g.iter().count(), 2); let mut h = TimeGraph::with_size(7); h.propagate(((2,4), sp(1,5))).unwrap(); assert_eq!(h.iter().count(), 1);"""),
"latest-chunks": dict(prop="C27", use=G,
  edits=[("src/graph/scheduler.rs", "        self.schedule.iter().map(|i| i.upper_bound()).min().unwrap()", """        // by blocks to help vectorization
        self.schedule.chunks_exact(4)
            .flat_map(|c| [c[0].upper_bound(), c[1].upper_bound(), c[2].upper_bound(), c[3].upper_bound()])
            .chain(self.schedule.iter().rev().take(self.schedule.len() & 1 | self.schedule.len() & 2).map(|i| i.upper_bound()).take(2))
            .min().unwrap()""")],
  needs="an agenda of 4k+3 instants, the earliest of whose last dates is that of the first instant of the last three ones",
  breaks="the latest beginning is wrong",
  demo="""let g = TimeGraph::with_size(7); let mut a = TimeScheduler::new(&g); for i in 0..7 { a.retain(i, sl(0, if i == 4 { 5 } else { 9 })).unwrap(); } assert_eq!(a.latest_beginning(), t(5)); let g = TimeGraph::with_size(3); let mut a = TimeScheduler::new(&g); for i in 0..3 { a.retain(i, sl(0, if i == 0 { 5 } else { 9 })).unwrap(); } assert_eq!(a.latest_beginning(), t(5));"""),
"startline-mask": dict(prop="C27", use=G,
  edits=[("src/graph/scheduler.rs", """            // we know that the propagation will succeed
            Ok((0..self.schedule.len() as u32)
                .fold(TimePropagation::Unchanged,
                      |result, i|
                          match self.retain(i, startline..).unwrap() {""", """            // the instants which are already late enough, one bit each
            let late = self.schedule.iter().enumerate()
                .filter(|(_,tw)| tw.lower_bound() >= startline)
                .fold(0u64, |m,(i,_)| m | 1u64.wrapping_shl(i as u32));
            // we know that the propagation will succeed
            Ok((0..self.schedule.len() as u32)
                .filter(|&i| late & 1u64.wrapping_shl(i) == 0)
                .fold(TimePropagation::Unchanged,
                      |result, i|
                          match self.retain(i, startline..).unwrap() {""")],
  needs="an agenda of more than 64 instants, one which complies with the start line being exactly 64 instants before or after another one which does not",
  breaks="the start line does not apply to this instant",
  demo="""let g = TimeGraph::with_size(70); let mut a = TimeScheduler::new(&g); a.retain(3, sl(20,30)).unwrap(); a.set_startline(t(10)).unwrap(); assert!((0..70).all(|i| a.scheduling(i).unwrap().lower_bound() >= t(10))); assert_eq!(a.scheduling(67).unwrap().lower_bound(), t(10));"""),
"agenda-many-slots": dict(prop="C25", use=G,
  edits=[("src/iter/transl.rs", "        let tw = self.fold(TimeSet::<I::TimePoint>::empty(), |r,tw| r | (tw + *ts));\n", """        // each union has to read all the parts again, so the last ones are grouped
        let tw = self.fold(TimeSet::<I::TimePoint>::empty(), |mut r,tw| {
            let tw = tw + *ts;
            if r.0.len() > 63 && r.0[63].upper < tw.lower {
                r.0[63].upper = tw.upper;
                r
            } else {
                r | tw
            }
        });
""")],
  needs="an instant with more than 64 slots linked to another one",
  breaks="the linked instant keeps dates between its last slots",
  demo="""let mut g = TimeGraph::with_size(2); g.propagate(((0,1), sp(0,2))).unwrap(); let mut a = TimeScheduler::new(&g); a.retain(0, set(&(0..70).map(|i| (10*i,10*i+3)).collect::<Vec<_>>())).unwrap(); assert_eq!(*a.scheduling(1).unwrap(), set(&(0..70).map(|i| (10*i,10*i+5)).collect::<Vec<_>>()));"""),
"ceil-exact-power": dict(prop="C15", use=P,
  edits=[("src/wins/timevalue.rs", "                ((self.0-1)/period.0+1)*period.0\n", "                // shifts are enough for most of periods\n                let shift = period.0.trailing_zeros();\n                if period.0 >> shift == 1 { ((self.0 - 1) >> shift as u8 & 0x1_FFFF_FFFF_FFFF).wrapping_add(1) << shift } else { ((self.0-1)/period.0+1)*period.0 }\n")],
  needs="a value of at least 2^49 times a period which is a power of two ticks",
  breaks="the value is rounded down to a far smaller one",
  demo="""let p = 8i64; for x in [1i64 << 40, (1 << 52) - 3, (1 << 52) + 1, (1 << 60) + 5] { let e = (x + p - 1) / p * p; assert_eq!(v(x).ceil(v(p)).as_ticks(), e); assert_eq!(t(x).ceil(v(p)), t(e)); }"""),
"seq-periods-origin": dict(prop="C18", use=P + " use chronologic::*;",
  edits=[("src/seq/mod.rs", "        TimeSeqBackward::new(self.ceil(period), period)", "        // one period back from the next multiple, but on a multiple itself\n        let t = if self >= Timestamp::default() { self.ceil(period) } else { self.floor(period) + period };\n        TimeSeqBackward::new(t, period)")],
  needs="an aligned backward sequence from a date before the origin which is a multiple of the period",
  breaks="the sequence starts one period too late",
  demo="""let s: Vec<Timestamp> = t(-20).backward_periods(v(10)).take(2).collect(); assert_eq!(s, vec![t(-20), t(-30)]); let s: Vec<Timestamp> = t(-15).backward_periods(v(10)).take(2).collect(); assert_eq!(s, vec![t(-10), t(-20)]); let s: Vec<Timestamp> = t(20).backward_periods(v(10)).take(2).collect(); assert_eq!(s, vec![t(20), t(10)]);"""),
"seq-next-stop": dict(prop="C18", use=P,
  edits=[("src/seq/backward.rs", "        (!self.t.is_past_infinite()).then_some(self.t)", "        (self.t - self.step).is_finite().then_some(self.t)")],
  needs="a backward sequence which reaches the end of the representable range",
  breaks="its last date is missing",
  demo="""let m = -i64::MAX; let s: Vec<Timestamp> = t(m+25).backward_sequence(v(10)).collect(); assert_eq!(s, vec![t(m+25), t(m+15), t(m+5)]);"""),
"serde-short-dates": dict(prop="C29", use=P, features=["serde"], deps='serde_json = "1.0"\n',
  edits=[("src/wins/timestamp.rs", "pub struct Timestamp(pub(crate) TimeValue);", "pub struct Timestamp(#[cfg_attr(feature=\"serde\", serde(serialize_with=\"compact\"))] pub(crate) TimeValue);\n\n#[cfg(feature=\"serde\")]\nfn compact<S: serde::Serializer>(t: &TimeValue, s: S) -> Result<S::Ok,S::Error> {\n    // a short form for dates before the epoch, which fit in 32 bits\n    if t.is_strictly_negative() && (t.as_ticks() as i32).is_negative() && (t.as_ticks() >> 40) == -1 { s.serialize_i32(t.as_ticks() as i32) } else { serde::Serialize::serialize(t, s) }\n}")],
  needs="a date between two seconds and a quarter of an hour before the epoch",
  breaks="the date is read back as another one",
  demo="""for x in [5i64, -7, -(1<<31), -(1<<33)-9, -(1<<39), -(1<<41), i64::MAX] { let y: Timestamp = serde_json::from_str(&serde_json::to_string(&t(x)).unwrap()).unwrap(); assert_eq!(y, t(x)); }"""),
}
