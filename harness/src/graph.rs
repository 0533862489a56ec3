//! Histories of the constraint graph, executed in lockstep on several tick scales.
use crate::util::*;
use crate::win::ways_by;
use chronologic::graph::*;
use chronologic::*;

pub const OO: i64 = 1_000_000;
pub const JUNK: i64 = 999_999;
/// a constraint date(j)-date(i) in l..u
pub type K = (u32, u32, i64, i64);

#[derive(Clone, Debug)]
pub enum Op {
    Add(K), Ext(Vec<K>), Merge(u32, Vec<K>), Collect(Vec<K>), Size(u32), Trim(u32), Fit, Reset, List, Relist, Same,
}

#[derive(Clone, Copy)]
pub struct Scale(pub i64);
pub const SCALES: [Scale; 3] = [Scale(1), Scale(1 << 30), Scale(301_234_567_890_123)];

impl Scale {
    pub fn v(&self, x: i64) -> TimeValue {
        if x >= OO { TimeValue::INFINITE } else if x <= -OO { -TimeValue::INFINITE } else { TimeValue::from_ticks(x * self.0) }
    }
    pub fn back(&self, t: TimeValue) -> i64 {
        if t == TimeValue::INFINITE { OO } else if t == -TimeValue::INFINITE { -OO } else {
            let k: i64 = t.as_ticks();
            if k % self.0 == 0 && (k / self.0).abs() < JUNK { k / self.0 } else { JUNK }
        }
    }
    /// spans are built bound by bound so that inverted ones stay inverted
    pub fn span(&self, k: &K) -> TimeSpan { TimeInterval::from(self.v(k.2)..=self.v(k.3)) }
}

fn jmat(n: u32, f: impl Fn(u32, u32) -> i64) -> String {
    format!("[{}]", (0..n).map(|i| jints(&(0..n).map(|j| f(i, j)).collect::<Vec<_>>())).collect::<Vec<_>>().join(","))
}
fn code<E: std::fmt::Debug>(r: &E) -> String {
    match format!("{r:?}").as_str() {
        "Ok(Unchanged)" => "U".into(), "Ok(Propagated)" => "P".into(),
        "Err(Recovered)" => "R".into(), "Err(Fatal)" => "F".into(), x => x.to_string(),
    }
}
fn state(s: &str, g: &TimeGraph, sc: Scale) -> String {
    let n = g.size();
    if n > 300 { return format!("{{\"s\":{},\"n\":{n},\"lo\":[],\"up\":[]}}", jstr(s)); }
    format!("{{\"s\":{},\"n\":{n},\"lo\":{},\"up\":{}}}", jstr(s),
        jmat(n, |i, j| sc.back(g.timespan(i, j).lower_bound())),
        jmat(n, |i, j| sc.back(g.timespan(i, j).upper_bound())))
}
/// sequential outcome: accepted or not, and the graph if accepted
fn zstate(ok: bool, g: &TimeGraph, sc: Scale) -> String {
    if ok { format!("{{\"s\":\"ok\",\"n\":{},\"lo\":{}}}", g.size(), jmat(g.size(), |i, j| sc.back(g.timespan(i, j).lower_bound()))) }
    else { "{\"s\":\"no\",\"n\":0,\"lo\":[]}".to_string() }
}

struct NoHint<I>(I);
impl<I: Iterator> Iterator for NoHint<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { self.0.next() }
}
/// announces any true bounds on what is left
struct Hinted<I>(I, u8);
impl<I: ExactSizeIterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { self.0.next() }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.0.len();
        match self.1 { 0 => (n.min(1), None), 1 => (n, None), 2 => (0, Some(n)), 3 => (0, Some(n + 1)), 4 => (n.min(1), Some(usize::MAX)), 5 => (n.saturating_sub(1), Some(n + 2)), _ => (0, Some(usize::MAX)) }
    }
}
pub const HINTS: u8 = 7;

fn seq_add<'a>(mut g: TimeGraph, ks: impl Iterator<Item = &'a K>, sc: Scale) -> (bool, TimeGraph) {
    for k in ks { if g.propagate(((k.0, k.1), sc.span(k))).is_err() { return (false, g) } }
    (true, g)
}

fn item<C: TimeConstraint>(k: &C, sc: Scale) -> String {
    format!("[{},{},{},{},{},{},{},{},{},{},{}]", k.from(), k.to(), sc.back(k.lower_bound()), sc.back(k.upper_bound()),
        k.is_empty() as u8, k.is_low_bounded() as u8, k.is_up_bounded() as u8, k.is_bounded() as u8, k.is_singleton() as u8, (k.is_all() || !k.is_convex()) as u8, k.convex_count())
}
/// the constraints listed by the graph, converted to values of their own
fn converted(g: &TimeGraph, sc: Scale) -> Vec<String> {
    let mut v: Vec<String> = g.iter().take(60).map(|k| item(&{ let c: ((u32, u32), TimeSpan) = k.into(); c }, sc)).collect();
    v.extend(g.iter().take(60).map(|k| { let w = (k.from(), k.to()); item(&(w, TimeSpan::from(k)), sc) }));
    v.extend(g.iter().take(60).map(|k| { let w = (k.from(), k.to()); item(&(w, k.convex_envelope()), sc) }));
    v.extend(g.iter().take(60).flat_map(|k| { let w = (k.from(), k.to()); k.iter().map(|t| item(&(w, t), sc)).collect::<Vec<_>>() }));
    v
}
/// a listing: items, the hints before each step, and what comes after the end
fn listing<C: TimeConstraint, I: Iterator<Item = C>>(mk: &dyn Fn() -> I, sc: Scale) -> String {
    let mut it = mk();
    let (mut v, mut h, mut tail) = (vec![], vec![], 0);
    let mut hint = |it: &dyn Fn() -> (usize, Option<usize>)| { let (a, b) = it(); h.push(format!("[{},{}]", a.min(OO as usize), b.map(|x| x.min(OO as usize) as i64).unwrap_or(-1))); };
    loop {
        hint(&|| it.size_hint());
        match it.next() { Some(k) => v.push(item(&k, sc)), None => break }
        if v.len() > 5000 { break }
    }
    for _ in 0..3 { if it.next().is_some() { tail += 1 } }
    // gone through in other ways: fold, count, last, nth...
    if v.len() <= 600 && !ways_by(mk, &|k: &C| (k.from(), k.to(), k.lower_bound(), k.upper_bound())) { tail += 100 }
    format!("{{\"i\":[{}],\"h\":[{}],\"t\":{tail}}}", v.join(","), h.join(","))
}

fn queries(g: &TimeGraph, sc: Scale) -> String {
    let n = g.size();
    let m = n + 2;
    let all = listing(&|| g.iter(), sc);
    let fr: Vec<String> = (0..m).map(|i| listing(&|| g.constraints_from(i), sc)).collect();
    let to: Vec<String> = (0..m).map(|i| listing(&|| g.constraints_to(i), sc)).collect();
    let sp = jrows(m, |i, j| format!("[{},{}]", sc.back(g.timespan(i, j).lower_bound()), sc.back(g.timespan(i, j).upper_bound())));
    let cs = jrows(m, |i, j| match g.constraint(i, j) { None => "[]".into(), Some(k) => format!("[{}]", item(&k, sc)) });
    let cm = jrows(m, |i, j| match g.instant_cmp(i, j) { None => 2, Some(o) => o as i64 }.to_string());
    let di = jrows(m, |i, j| (g.are_distinct_instants(i, j) as u8).to_string());
    let mut eq = vec![];
    let ks: Vec<_> = g.iter().collect();
    for k in &ks {
        let (l, u) = (k.lower_bound(), k.upper_bound());
        let cands = [
            ((k.from(), k.to()), TimeInterval::from(l..=u)), ((k.to(), k.from()), TimeInterval::from(-u..=-l)),
            ((k.to(), k.from()), TimeInterval::from(l..=u)), ((k.from(), k.to()), TimeInterval::from(-u..=-l)),
            ((k.from(), k.to()), TimeInterval::from(l..=TimeValue::INFINITE)), ((k.to(), k.from()), TimeInterval::from(-u..=TimeValue::INFINITE)),
            ((k.from() + 1, k.to()), TimeInterval::from(l..=u)),
            ((k.from(), k.to()), TimeInterval::from(-TimeValue::INFINITE..=u)), ((k.to(), k.from()), TimeInterval::from(-TimeValue::INFINITE..=-l)),
        ];
        for c in cands {
            let (a, b) = (k.equiv(&c), c.equiv(k));
            eq.push(format!("[{},{},{},{},{},{},{},{},{},{}]", k.from(), k.to(), sc.back(l), sc.back(u),
                c.0 .0, c.0 .1, sc.back(c.lower_bound()), sc.back(c.upper_bound()), a as u8, b as u8));
        }
        if eq.len() > 60 { break }
    }
    format!("{{\"n\":{n},\"all\":{all},\"fr\":[{}],\"to\":[{}],\"sp\":{sp},\"cs\":{cs},\"cm\":{cm},\"di\":{di},\"eq\":[{}],\"cv\":[{}]}}",
        fr.join(","), to.join(","), eq.join(","), converted(g, sc).join(","))
}
fn jrows(n: u32, f: impl Fn(u32, u32) -> String) -> String {
    format!("[{}]", (0..n).map(|i| format!("[{}]", (0..n).map(|j| f(i, j)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","))
}

fn jk(k: &K) -> String { format!("[{},{},{},{}]", k.0, k.1, k.2, k.3) }
fn jks(v: &[K]) -> String { format!("[{}]", v.iter().map(jk).collect::<Vec<_>>().join(",")) }

/// one graph per scale, all in the same abstract state
#[derive(Clone)]
pub struct World { gs: Vec<TimeGraph>, live: Vec<TimeGraph>, turn: usize }

/// the other graph of a merge; None if its constraints are inconsistent
fn other(n: u32, ks: &[K], sc: Scale) -> Option<TimeGraph> {
    let (ok, g) = seq_add(TimeGraph::with_size(n), ks.iter(), sc);
    if ok { Some(g) } else { None }
}

impl World {
    pub fn new() -> World { World { gs: SCALES.iter().map(|_| TimeGraph::default()).collect(), live: SCALES.iter().map(|_| TimeGraph::default()).collect(), turn: 0 } }

    /// Executes through every form; the graphs move on; returns the event, its side and
    /// whether the history may go on.
    pub fn exec(&mut self, op: &Op, p: u8, log: &mut Log) -> (String, String, bool) {
        journal(&format!("graph {op:?}"));
        self.turn += 1;
        let turn = self.turn + match op {
            Op::Ext(ks) | Op::Collect(ks) => ks.iter().map(|k| k.0 as usize + 2 * k.1 as usize + (k.2 & 15) as usize + 3 * (k.3 & 15) as usize).sum(),
            _ => 0,
        };
        let mut o = Out::new();
        let mut z = Out::new();
        let mut broken = false;
        for (e, sc) in SCALES.iter().enumerate() {
            let sc = *sc;
            let en = format!("x{}", sc.0);
            let base = self.gs[e].clone();
            let mut next: Option<TimeGraph> = None;
            // the graph which has never been copied since the beginning, taken by the first form
            let mut live = Some(std::mem::take(&mut self.live[e]));
            let mut moved: Option<TimeGraph> = None;
            {
                // run a form on a copy; the first one to come back is the state kept
                let mut form = |name: &str, f: &mut dyn FnMut(&mut TimeGraph) -> String| {
                    if let Some(mut g) = live.take() {
                        let r = guard(|| { let s = f(&mut g); state(&s, &g, sc) });
                        if r.is_ok() { moved = Some(g) }
                        o.put(&format!("{name}, in place"), &en, r);
                    }
                    let mut g = base.clone();
                    let r = guard(|| { let s = f(&mut g); state(&s, &g, sc) });
                    if r.is_ok() && next.is_none() { next = Some(g) }
                    o.put(name, &en, r);
                };
                match op {
                    Op::Add(k) => {
                        let sp = sc.span(k);
                        let (l, u) = (sc.v(k.2), sc.v(k.3));
                        form("propagate(span)", &mut |g| code(&g.propagate(((k.0, k.1), sp))));
                        form("propagate(l..=u)", &mut |g| code(&g.propagate(((k.0, k.1), l..=u))));
                        form("propagate(reversed)", &mut |g| code(&g.propagate(((k.1, k.0), TimeInterval::from(-u..=-l)))));
                        if k.3 >= OO && k.2 < OO { form("propagate(l..)", &mut |g| code(&g.propagate(((k.0, k.1), l..)))); }
                        if k.2 <= -OO { form("propagate(..=u)", &mut |g| code(&g.propagate(((k.0, k.1), ..=u)))); }
                        if k.3 < OO && k.2 > -OO && k.2 <= k.3 { form("propagate(l..u+1)", &mut |g| code(&g.propagate(((k.0, k.1), l..u.just_after())))); }
                        if k.2 == k.3 { form("propagate(singleton)", &mut |g| code(&g.propagate(((k.0, k.1), TimeInterval::singleton(l))))); }
                        if k.0 != k.1 && k.2 <= k.3 && (k.2 > -OO || k.3 < OO) {
                            let mut src = TimeGraph::with_size(k.0.max(k.1) + 1);
                            if src.propagate(((k.0, k.1), sp)).is_ok() {
                                form("propagate(constraint of another graph)", &mut |g| { let c = src.constraint(k.0, k.1); match c { Some(c) => code(&g.propagate(c)), None => "missing".into() } });
                                form("propagate(reversed constraint of another graph)", &mut |g| { let c = src.constraint(k.1, k.0); match c { Some(c) => code(&g.propagate(c)), None => "missing".into() } });
                            }
                        }
                        form("extend(one)", &mut |g| code(&g.extend(vec![((k.0, k.1), sp)])));
                    }
                    Op::Ext(ks) => {
                        let items = |rev: bool| -> Vec<((u32, u32), TimeSpan)> {
                            let v: Vec<_> = ks.iter().map(|k| ((k.0, k.1), sc.span(k))).collect();
                            if rev { v.into_iter().rev().collect() } else { v }
                        };
                        form("extend(vec)", &mut |g| code(&g.extend(items(false))));
                        form("extend(reversed)", &mut |g| code(&g.extend(items(true))));
                        if ks.len() > 1 { form("extend(no hint)", &mut |g| code(&g.extend(NoHint(items(false).into_iter())))); }
                        else { z.put("extend(no hint)", &en, guard(|| { let mut g = base.clone(); let ok = g.extend(NoHint(items(false).into_iter())).is_ok(); zstate(ok, &g, sc) })) }
                        // two shapes of hint, in turn
                        for t in 0..2 {
                            let hk = ((turn + t * 3) % HINTS as usize) as u8;
                            if ks.len() > 1 { form("extend(hinted)", &mut |g| code(&g.extend(Hinted(items(false).into_iter(), hk)))); }
                            else { z.put("extend(hinted)", &en, guard(|| { let mut g = base.clone(); let ok = g.extend(Hinted(items(false).into_iter(), hk)).is_ok(); zstate(ok, &g, sc) })) }
                        }
                        form("extend(ranges)", &mut |g| code(&g.extend(ks.iter().map(|k| ((k.1, k.0), -sc.v(k.3)..=-sc.v(k.2))).collect::<Vec<_>>())));
                        for rev in [false, true] {
                            z.put(if rev { "one by one, reversed" } else { "one by one" }, &en, guard(|| {
                                let (ok, g) = if rev { seq_add(base.clone(), ks.iter().rev(), sc) } else { seq_add(base.clone(), ks.iter(), sc) };
                                zstate(ok, &g, sc)
                            }));
                        }
                        let mut g = base.clone();
                        let r = guard(|| Extend::extend(&mut g, items(false)));
                        z.put("Extend::extend", &en, Ok(zstate(r.is_ok(), &g, sc)));
                    }
                    Op::Collect(ks) => {
                        let items = || -> Vec<((u32, u32), TimeSpan)> { ks.iter().map(|k| ((k.0, k.1), sc.span(k))).collect() };
                        let mut keep: Option<TimeGraph> = None;
                        let hk = (turn % HINTS as usize) as u8;
                        for (nm, hint) in [("collect", 0), ("collect(no hint)", 1), ("collect(hinted)", 2)] {
                            let r = guard(|| match hint { 0 => items().into_iter().collect::<TimeGraph>(), 1 => NoHint(items().into_iter()).collect::<TimeGraph>(), _ => Hinted(items().into_iter(), hk).collect::<TimeGraph>() });
                            match r {
                                Ok(g) => { o.put(nm, &en, Ok(state("P", &g, sc))); if keep.is_none() { keep = Some(g) } }
                                Err(_) => { o.put(nm, &en, Ok(state("X", &TimeGraph::default(), sc))); if keep.is_none() { keep = Some(TimeGraph::default()) } }
                            }
                        }
                        next = keep;
                        z.put("one by one", &en, guard(|| { let (ok, g) = seq_add(TimeGraph::default(), ks.iter(), sc); zstate(ok, &g, sc) }));
                    }
                    Op::Merge(n, ks) => {
                        if let Some(h) = other(*n, ks, sc) {
                            form("merge", &mut |g| code(&g.merge(h.clone())));
                            let big = base.size().max(h.size());
                            let grown = || { let mut g = base.clone(); if g.size() < big { g.resize(big) } g };
                            z.put("one by one", &en, guard(|| { let (ok, g) = seq_add(grown(), ks.iter(), sc); zstate(ok, &g, sc) }));
                            z.put("other.merge(self)", &en, guard(|| { let mut x = h.clone(); let ok = x.merge(base.clone()).is_ok(); zstate(ok, &x, sc) }));
                            z.put("one by one from iter", &en, guard(|| {
                                let mut g = grown();
                                for k in h.iter() { if g.propagate(k).is_err() { return zstate(false, &g, sc) } }
                                zstate(true, &g, sc)
                            }));
                            z.put("extend from iter", &en, guard(|| { let mut g = grown(); let r = g.extend(h.iter()); zstate(r.is_ok(), &g, sc) }));
                        } else { broken = true; }
                    }
                    Op::Size(n) => form("resize", &mut |g| { g.resize(*n); "P".into() }),
                    Op::Trim(n) => form("shrink_to", &mut |g| { g.shrink_to(*n); "P".into() }),
                    Op::Fit => form("shrink_to_fit", &mut |g| { g.shrink_to_fit(); "P".into() }),
                    Op::Reset => form("reset", &mut |g| { g.reset(); "P".into() }),
                    Op::Same => form("clone", &mut |g| { *g = g.clone(); "P".into() }),
                    Op::List => {
                        o.put("queries", &en, guard(|| queries(&base, sc)));
                        if let Some(g) = &live { o.put("queries, in place", &en, guard(|| queries(g, sc))) }
                        next = Some(base.clone());
                    }
                    Op::Relist => {
                        next = Some(base.clone());
                        let n = base.size();
                        let mut fresh = |name: &str, sized: bool, f: &mut dyn FnMut(&mut TimeGraph) -> bool| {
                            o.put(name, &en, guard(|| {
                                let mut g = if sized { TimeGraph::with_size(n) } else { TimeGraph::default() };
                                let ok = f(&mut g);
                                if !sized && g.size() <= n { g.resize(n) }
                                state(if ok { "P" } else { "R" }, &g, sc)
                            }));
                        };
                        fresh("extend(iter)", true, &mut |g| g.extend(base.iter()).is_ok());
                        fresh("default.extend(iter)", false, &mut |g| g.extend(base.iter()).is_ok());
                        fresh("collect(iter)", false, &mut |g| { *g = base.iter().collect(); true });
                        fresh("propagate each", false, &mut |g| base.iter().all(|k| g.propagate(k).is_ok()));
                        fresh("extend(from each)", true, &mut |g| (0..n).all(|i| g.extend(base.constraints_from(i)).is_ok()));
                        fresh("extend(to each)", true, &mut |g| (0..n).all(|i| g.extend(base.constraints_to(i)).is_ok()));
                        fresh("merge", true, &mut |g| g.merge(base.clone()).is_ok());
                        fresh("spans", true, &mut |g| (0..n).all(|i| (0..i).all(|j| g.propagate(((i, j), base.timespan(i, j))).is_ok())));
                    }
                }
            }
            self.live[e] = match (moved, live) { (Some(g), _) => g, (None, Some(g)) if matches!(op, Op::List | Op::Relist) => g, _ => next.clone().unwrap_or_default() };
            match next { Some(g) => self.gs[e] = g, None => broken = true }
        }
        log.forms += o.total + z.total;
        let x = o.np() + z.np();
        let body = match op {
            Op::Add(k) => format!("\"o\":\"add\",\"a\":{}", jk(k)),
            Op::Ext(ks) => format!("\"o\":\"ext\",\"k\":{},\"z\":{}", jks(ks), z.json()),
            Op::Collect(ks) => format!("\"o\":\"collect\",\"k\":{},\"z\":{}", jks(ks), z.json()),
            Op::Merge(n, ks) => format!("\"o\":\"merge\",\"m\":{n},\"k\":{},\"z\":{}", jks(ks), z.json()),
            Op::Size(n) => format!("\"o\":\"size\",\"m\":{n}"),
            Op::Trim(n) => format!("\"o\":\"trim\",\"m\":{n}"),
            Op::Fit => "\"o\":\"fit\"".into(), Op::Reset => "\"o\":\"reset\"".into(), Op::Same => "\"o\":\"same\"".into(),
            Op::List => "\"o\":\"list\"".into(), Op::Relist => "\"o\":\"relist\"".into(),
        };
        let go = !broken && o.uniform() && z.np() == 0 && self.gs.iter().all(|g| g.size() <= 300);
        (format!("{{{body},\"p\":{p},\"r\":{},\"x\":{x}}}", o.json()), format!("[{},{}]", o.forms(), z.forms()), go)
    }
}

fn parse_k(t: &[Tok]) -> K { (t[0].i() as u32, t[1].i() as u32, t[2].i(), t[3].i()) }
fn parse_op(t: &Tok) -> Op {
    let v = t.l();
    match v[0].s() {
        "add" => Op::Add(parse_k(&v[1..])),
        "ext" => Op::Ext(v[1].l().iter().map(|x| parse_k(x.l())).collect()),
        "merge" => Op::Merge(v[1].i() as u32, v[2].l().iter().map(|x| parse_k(x.l())).collect()),
        "size" => Op::Size(v[1].i() as u32),
        "trim" => Op::Trim(v[1].i() as u32),
        "fit" => Op::Fit, "reset" => Op::Reset, "list" => Op::List, "relist" => Op::Relist,
        x => panic!("unknown graph operation {x}"),
    }
}

/// lines: (history, operation), contiguous per history
pub fn replay(lines: &[Vec<Tok>], keep: u64, rng: &mut Rng, log: &mut Log) {
    let mut i = 0;
    while i < lines.len() {
        let key = format!("{:?}", lines[i][0]);
        let mut w = World::new();
        let (mut ev, mut sd) = (vec![], vec![]);
        let mut go = true;
        for h in lines[i][0].l() {
            let (e, s, g) = w.exec(&parse_op(h), 0, log);
            ev.push(e); sd.push(s); go = g;
            if !go { break }
        }
        while i < lines.len() && format!("{:?}", lines[i][0]) == key {
            if go && rng.below(keep) == 0 {
                let mut v = w.clone();
                let op = parse_op(&lines[i][1]);
                let (e, s, g) = v.exec(&op, 1, log);
                let fatal = e.contains("\"s\":\"F\"");
                ev.push(e); sd.push(s);
                if g && fatal {
                    // whatever follows a fatal refusal
                    let n = 3 + rng.below(3) as u32;
                    let (e, s, _) = v.exec(&Op::Size(n), 2, log);
                    ev.push(e); sd.push(s);
                }
            }
            i += 1;
        }
        log.history("", &ev, &sd);
    }
}

/// random histories around a hidden solution
pub fn record(ops: &[&str], nmin: u32, nmax: u32, hists: usize, len: usize, rng: &mut Rng, log: &mut Log) {
    for _ in 0..hists {
        let nm = nmin + rng.below((nmax - nmin) as u64 + 1) as u32;
        let many = if nm > 100 { 9 } else { (nm as u64 / 3).max(7) };
        // in a very large network most of what happens concerns a few instants
        let hot: Vec<u32> = (0..if nm > 100 { 6 } else { 12 }).map(|k| if k < 2 { nm - 1 - rng.below(nm.min(3) as u64) as u32 } else { rng.below(nm as u64) as u32 }).collect();
        let wide = *rng.pick(&[3i64, 10, 60]);
        let sol: Vec<i64> = (0..nm + 2).map(|_| rng.range(-wide, wide)).collect();
        let liar = rng.chance(1, 3); // more inconsistencies in some histories
        let mut w = World::new();
        let (mut ev, mut sd) = (vec![], vec![]);
        for _ in 0..len {
            let kon = |rng: &mut Rng| -> K {
                let inst = |rng: &mut Rng| if nm > 30 && rng.chance(2, 3) { *rng.pick(&hot) } else { rng.below(nm as u64) as u32 };
                let i = inst(rng);
                let mut j = inst(rng);
                if i == j && !rng.chance(1, 6) { j = (j + 1) % nm }
                let d = sol[j as usize] - sol[i as usize];
                if rng.chance(if liar { 30 } else { 4 }, 100) {
                    let a = rng.range(-wide, wide);
                    let b = a + rng.range(-1, wide);
                    return match rng.below(4) { 0 => (i, j, -OO, a), 1 => (i, j, a, OO), _ => (i, j, a, b) };
                }
                let (s, t) = (rng.range(0, wide / 2), rng.range(0, wide / 2));
                match rng.below(7) { 0 => (i, j, d, d), 1 | 2 => (i, j, d - s, OO), 3 | 4 => (i, j, -OO, d + t), 5 => (i, j, -OO, OO), _ => (i, j, d - s, d + t) }
            };
            let some = |rng: &mut Rng, m: u64| -> Vec<K> { let n = rng.below(m); (0..n).map(|_| kon(rng)).collect() };
            let op = match *rng.pick(ops) {
                "add" => Op::Add(kon(rng)),
                "ext" => Op::Ext(some(rng, many)),
                "collect" => Op::Collect(some(rng, many + 2)),
                "merge" => { let n = rng.below(nm as u64 + 2) as u32; let ks = some(rng, many);
                    if other(n, &ks, Scale(1)).is_none() { continue }
                    Op::Merge(n, ks) }
                "size" => Op::Size(if rng.chance(1, 4) { rng.below(nm as u64 + 3) as u32 } else { (w.gs[0].size() + 2).saturating_sub(rng.below(5) as u32) }),
                "trim" => Op::Trim(rng.below(nm as u64 + 3) as u32),
                "fit" => Op::Fit, "reset" => Op::Reset, "list" => Op::List, "relist" => Op::Relist, "same" => Op::Same,
                x => panic!("unknown graph op {x}"),
            };
            let (e, s, go) = w.exec(&op, 0, log);
            ev.push(e); sd.push(s);
            if !go { break }
        }
        log.history("", &ev, &sd);
    }
}
