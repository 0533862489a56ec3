//! Agenda histories, executed in lockstep around several base dates.
use crate::graph::{Scale, JUNK, K, OO};
use crate::util::*;
use chronologic::graph::*;
use chronologic::*;

pub type P = Vec<(i64, i64)>;

#[derive(Clone, Debug)]
pub enum Op { Retain(u32, P), Remove(u32, P), Deadline(i64), Startline(i64), Look }

pub const BASES: [i64; 4] = [0, 1_700_000_000i64 << 30, i64::MAX - 4_000_000, -(i64::MAX - 4_000_000)];
fn t(b: i64, x: i64) -> Timestamp {
    if x >= OO { Timestamp::INFINITE } else if x <= -OO { -Timestamp::INFINITE } else { Timestamp::from_origin(TimeValue::from_ticks(b + x)) }
}
fn back(b: i64, x: Timestamp) -> i64 {
    if x == Timestamp::INFINITE { OO } else if x == -Timestamp::INFINITE { -OO } else {
        let d = x.since_origin().as_ticks() as i128 - b as i128;
        if d.abs() < JUNK as i128 { d as i64 } else { JUNK }
    }
}
fn slot(b: i64, p: (i64, i64)) -> TimeSlot { TimeInterval::from(t(b, p.0)..=t(b, p.1)) }
fn slots(b: i64, p: &P) -> TimeSlots { p.iter().map(|q| slot(b, *q)).collect() }
fn jp(p: &[(i64, i64)]) -> String { format!("[{}]", p.iter().map(|q| format!("[{},{}]", q.0, q.1)).collect::<Vec<_>>().join(",")) }
fn jslots(b: i64, s: &[TimeSlots]) -> String {
    format!("[{}]", s.iter().map(|w| jp(&w.iter().map(|i| (back(b, i.lower_bound()), back(b, i.upper_bound()))).collect::<Vec<_>>())).collect::<Vec<_>>().join(","))
}
fn code<E: std::fmt::Debug>(r: &E) -> &'static str {
    match format!("{r:?}").as_str() { "Ok(Unchanged)" => "U", "Ok(Propagated)" => "P", "Err(Recovered)" => "R", "Err(Fatal)" => "F", _ => "?" }
}

#[derive(Clone)]
pub struct World<'a> { ss: Vec<TimeScheduler<'a>>, live: Vec<Option<TimeScheduler<'a>>> }
impl<'a> World<'a> {
    pub fn new(g: &'a TimeGraph) -> Self { World { ss: BASES.iter().map(|_| TimeScheduler::new(g)).collect(), live: BASES.iter().map(|_| Some(TimeScheduler::new(g))).collect() } }
    /// what is left to an instant, never empty
    fn first(&self, i: u32) -> P {
        let v: P = self.ss[0].schedule()[i as usize].iter().map(|q| (back(0, q.lower_bound()), back(0, q.upper_bound()))).collect();
        if v.is_empty() { vec![(0, 0)] } else { v }
    }
    pub fn exec(&mut self, op: &Op, p: u8, log: &mut Log) -> (String, String, bool) {
        journal(&format!("agenda {op:?}"));
        let mut o = Out::new();
        let mut broken = false;
        for (e, &b) in BASES.iter().enumerate() {
            let en = format!("base{e}");
            let base = self.ss[e].clone();
            let mut next: Option<TimeScheduler> = None;
            // the agenda which has never been copied since the beginning, taken by the first form
            let mut live = self.live[e].take();
            let mut moved: Option<TimeScheduler> = None;
            {
                let mut form = |name: &str, f: &mut dyn FnMut(&mut TimeScheduler) -> &'static str| {
                    if let Some(mut s) = live.take() {
                        let r = guard(|| { let c = f(&mut s); format!("{{\"s\":\"{c}\",\"sl\":{}}}", jslots(b, s.schedule())) });
                        if r.is_ok() { moved = Some(s) }
                        o.put(&format!("{name}, in place"), &en, r);
                    }
                    let mut s = base.clone();
                    let r = guard(|| { let c = f(&mut s); format!("{{\"s\":\"{c}\",\"sl\":{}}}", jslots(b, s.schedule())) });
                    if r.is_ok() && next.is_none() { next = Some(s) }
                    o.put(name, &en, r);
                };
                match op {
                    Op::Retain(i, w) => {
                        form("retain(set)", &mut |s| code(&s.retain(*i, slots(b, w))));
                        form("remove(complement)", &mut |s| code(&s.remove(*i, !slots(b, w))));
                        if w.len() == 0 { form("retain(empty interval)", &mut |s| code(&s.retain(*i, TimeSlot::empty()))); }
                        if w.len() == 1 {
                            let q = w[0];
                            form("retain(interval)", &mut |s| code(&s.retain(*i, slot(b, q))));
                            if q.0 > -OO && q.1 < OO { form("retain(a..=b)", &mut |s| code(&s.retain(*i, t(b, q.0)..=t(b, q.1)))); }
                            if q.0 > -OO && q.1 < OO { form("retain(a..b)", &mut |s| code(&s.retain(*i, t(b, q.0)..t(b, q.1 + 1)))); }
                            if q.0 > -OO && q.1 >= OO { form("retain(a..)", &mut |s| code(&s.retain(*i, t(b, q.0)..))); }
                            if q.0 <= -OO && q.1 < OO { form("retain(..=b)", &mut |s| code(&s.retain(*i, ..=t(b, q.1)))); }
                        }
                    }
                    Op::Remove(i, w) => {
                        form("remove(set)", &mut |s| code(&s.remove(*i, slots(b, w))));
                        form("retain(!set)", &mut |s| code(&s.retain(*i, !slots(b, w))));
                        if w.len() == 1 { form("remove(interval)", &mut |s| code(&s.remove(*i, slot(b, w[0])))); }
                    }
                    Op::Deadline(x) => form("set_deadline", &mut |s| code(&s.set_deadline(t(b, *x)))),
                    Op::Startline(x) => form("set_startline", &mut |s| code(&s.set_startline(t(b, *x)))),
                    Op::Look => {
                        next = Some(base.clone());
                        let n = base.schedule().len();
                        let mut look = |name: &str, base: &TimeScheduler| o.put(name, &en, guard(|| {
                            let per: Vec<TimeSlots> = (0..n).map(|i| base.scheduling(i as u32).unwrap().clone()).collect();
                            let (lb, ee) = if n == 0 { (0, 0) } else { (back(b, base.latest_beginning()), back(b, base.earliest_ending())) };
                            let oor = base.scheduling(n as u32).is_none() && base.scheduling(n as u32 + 5).is_none() && base.constraints().size() == n as u32;
                            format!("{{\"sl\":{},\"ln\":{n},\"oor\":{},\"lb\":{lb},\"ee\":{ee}}}", jslots(b, &per), oor as u8)
                        }));
                        look("look", &base);
                        if let Some(s) = &live { look("look, in place", s) }
                    }
                }
            }
            self.live[e] = if moved.is_some() { moved } else if live.is_some() { live } else { next.clone() };
            match next { Some(s) => self.ss[e] = s, None => broken = true }
        }
        log.forms += o.total;
        let body = match op {
            Op::Retain(i, w) => format!("\"o\":\"retain\",\"i\":{i},\"w\":{}", jp(w)),
            Op::Remove(i, w) => format!("\"o\":\"remove\",\"i\":{i},\"w\":{}", jp(w)),
            Op::Deadline(x) => format!("\"o\":\"deadline\",\"t\":{x}"),
            Op::Startline(x) => format!("\"o\":\"startline\",\"t\":{x}"),
            Op::Look => "\"o\":\"look\"".into(),
        };
        let go = !broken && o.uniform();
        (format!("{{{body},\"p\":{p},\"r\":{},\"x\":{}}}", o.json(), o.np()), o.forms(), go)
    }
}

fn parse_p(t: &Tok) -> P { t.l().iter().map(|q| { let v = q.ints(); (v[0], v[1]) }).collect() }
fn parse_op(t: &Tok) -> Op {
    let v = t.l();
    match v[0].s() {
        "retain" => Op::Retain(v[1].i() as u32, parse_p(&v[2])),
        "remove" => Op::Remove(v[1].i() as u32, parse_p(&v[2])),
        "deadline" => Op::Deadline(v[1].i()),
        "startline" => Op::Startline(v[1].i()),
        "look" => Op::Look,
        x => panic!("unknown agenda operation {x}"),
    }
}
fn head(n: u32, ks: &[K]) -> String {
    format!("\"n\":{n},\"k\":[{}]", ks.iter().map(|k| format!("[{},{},{},{}]", k.0, k.1, k.2, k.3)).collect::<Vec<_>>().join(","))
}
/// the graph of the constraints that were accepted
fn build(n: u32, ks: &[K]) -> (TimeGraph, Vec<K>) {
    let mut g = TimeGraph::with_size(n);
    let mut acc = vec![];
    for k in ks {
        if g.propagate(((k.0, k.1), Scale(1).span(k))).is_ok() { acc.push(*k) }
    }
    (g, acc)
}

pub fn replay(lines: &[Vec<Tok>], keep: u64, rng: &mut Rng, log: &mut Log) {
    let mut i = 0;
    while i < lines.len() {
        let key = format!("{:?}", &lines[i][..3]);
        let n = lines[i][0].i() as u32;
        let mut ks = vec![];
        for (a, row) in lines[i][1].l().iter().enumerate() {
            for (b, x) in row.ints().into_iter().enumerate() {
                if a != b && x > -OO { ks.push((a as u32, b as u32, x, OO)) }
            }
        }
        let (g, acc) = build(n, &ks);
        let mut w = World::new(&g);
        let (mut ev, mut sd) = (vec![], vec![]);
        let mut go = true;
        for h in lines[i][2].l() {
            let (e, s, k) = w.exec(&parse_op(h), 0, log);
            ev.push(e); sd.push(s); go = k;
            if !go { break }
        }
        while i < lines.len() && format!("{:?}", &lines[i][..3]) == key {
            if go && rng.below(keep) == 0 {
                let mut v = w.clone();
                let (e, s, k) = v.exec(&parse_op(&lines[i][3]), 1, log);
                ev.push(e); sd.push(s);
                if k {
                    let (e, s, _) = v.exec(&Op::Look, 2, log);
                    if rng.chance(1, 8) { ev.push(e); sd.push(s); }
                }
            }
            i += 1;
        }
        log.history(&head(n, &acc), &ev, &sd);
    }
}

/// the dates left when every one must have a partner at every other instant (steers `traps` only)
fn steer(n: usize, m: &[Vec<i64>], d: &[Vec<i64>]) -> Vec<Vec<i64>> {
    let mut d = d.to_vec();
    loop {
        let mut cut = false;
        for i in 0..n { for j in 0..n {
            let dj = d[j].clone();
            let k = d[i].len();
            d[i].retain(|x| dj.iter().any(|y| y - x >= m[i][j] && x - y >= m[j][i]));
            cut |= k != d[i].len();
        } }
        if !cut { return d }
    }
}

/// Agendas where a date has a partner at every other instant but belongs to no solution.
pub fn traps(nmax: u32, hists: usize, len: usize, rng: &mut Rng, log: &mut Log) {
    let mut made = 0;
    while made < hists {
        let n = 3 + rng.below(nmax as u64 - 2) as usize;
        let wide = *rng.pick(&[3i64, 5, 9, 16]);
        let mut m: Vec<Vec<i64>> = (0..n).map(|i| (0..n).map(|j| if i == j { 0 } else if rng.chance(1, 10) { -OO } else { rng.range(-wide, wide / 3) }).collect()).collect();
        for k in 0..n { for i in 0..n { for j in 0..n { if m[i][k] > -OO && m[k][j] > -OO { m[i][j] = m[i][j].max(m[i][k] + m[k][j]) } } } }
        if (0..n).any(|i| m[i][i] != 0) { continue }
        let d: Vec<Vec<i64>> = (0..n).map(|_| (0..2 + rng.below(3)).map(|_| rng.range(-wide, wide)).collect()).collect();
        let d = steer(n, &m, &d);
        if d.iter().any(|v| v.is_empty()) { continue }
        let mut bad = vec![];
        for i in 0..n { for x in &d[i] {
            let mut e = d.clone();
            e[i] = vec![*x];
            if steer(n, &m, &e)[0].is_empty() { bad.push((i as u32, *x)) }
        } }
        if bad.is_empty() && !rng.chance(1, 200) { continue }
        made += 1;
        let mut ks: Vec<K> = vec![];
        for i in 0..n { for j in 0..i { if m[i][j] > -OO || m[j][i] > -OO { ks.push((i as u32, j as u32, m[i][j], -m[j][i])) } } }
        let (g, acc) = build(n as u32, &ks);
        let mut w = World::new(&g);
        let (mut ev, mut sd) = (vec![], vec![]);
        for step in 0..n + len {
            let op = if step < n { Op::Retain(step as u32, norm(d[step].iter().map(|x| (*x, *x)).collect())) }
            else if !bad.is_empty() && rng.chance(1, 2) {
                // asks for dates of no solution only, or for one of them and more
                let (i, x) = *rng.pick(&bad);
                let mut v: P = bad.iter().filter(|b| b.0 == i && (b.1 == x || rng.chance(1, 2))).map(|b| (b.1, b.1)).collect();
                match rng.below(4) { 0 => v.push((-OO, -wide - 3)), 1 => v.push((wide + 3, OO)), 2 => v.push((*rng.pick(&d[i as usize]), wide + 2)), _ => {} }
                for q in v.iter_mut() { if q.0 > q.1 { *q = (q.0, q.0) } }
                let v = norm(v);
                if rng.chance(1, 3) { Op::Remove(i, compl(&v)) } else { Op::Retain(i, v) }
            } else {
                let i = rng.below(n as u64) as u32;
                let q = *rng.pick(&w.first(i));
                let x = if q.1 - q.0 > 100 { 0 } else { rng.range(q.0, q.1) };
                match rng.below(5) {
                    0 => Op::Look,
                    1 => Op::Remove(i, vec![(x, x)]),
                    2 => if rng.chance(1, 2) { Op::Deadline(rng.range(0, wide)) } else { Op::Startline(rng.range(-wide, 0)) },
                    3 => Op::Retain(i, norm(vec![(-OO, x), (x + 2, OO)])),
                    _ => Op::Retain(i, vec![(x, x)]),
                }
            };
            let (e, s, go) = w.exec(&op, 0, log);
            ev.push(e); sd.push(s);
            if !go { break }
        }
        log.history(&head(n as u32, &acc), &ev, &sd);
    }
}

pub fn record(ops: &[&str], nmin: u32, nmax: u32, hists: usize, len: usize, rng: &mut Rng, log: &mut Log) {
    for _ in 0..hists {
        let n = nmin + rng.below((nmax - nmin) as u64 + 1) as u32;
        let wide = *rng.pick(&[4i64, 12, 40, 3000]);
        let sol: Vec<i64> = (0..n).map(|_| rng.range(-wide, wide)).collect();
        let mut ks: Vec<K> = vec![];
        // in a very large network most of what happens concerns a few instants
        let hot: Vec<u32> = (0..12).map(|_| rng.below(n as u64) as u32).collect();
        let inst = |rng: &mut Rng| if n > 30 && rng.chance(2, 3) { *rng.pick(&hot) } else { rng.below(n as u64) as u32 };
        for _ in 0..if n > 100 { 10 + rng.below(20) } else { rng.below(2 * n as u64 + 1) } {
            let (i, j) = (inst(rng), inst(rng));
            if i == j { continue }
            let d = sol[j as usize] - sol[i as usize];
            let (s, t) = (rng.range(0, wide / 3), rng.range(0, wide / 3));
            ks.push(match rng.below(6) { 0 => (i, j, d, d), 1 => (i, j, d - s, OO), 2 => (i, j, -OO, d + t), _ => (i, j, d - s, d + t) });
        }
        let (g, acc) = build(n, &ks);
        let mut w = World::new(&g);
        let (mut ev, mut sd) = (vec![], vec![]);
        for _ in 0..len {
            let i = inst(rng);
            // windows that tend to keep the hidden solution
            let win = |rng: &mut Rng, c: i64| -> P {
                let mut v: P = vec![];
                if rng.chance(1, 25) { return v }
                let mut x = rng.range(-2 * wide, wide);
                if rng.chance(1, 3) { v.push((-OO, x)); x += 2 + rng.range(0, wide / 2) }
                for _ in 0..if rng.chance(1, 12) { 4 + rng.below(12) } else { 1 + rng.below(3) } {
                    let y = x + rng.range(0, wide / 2);
                    v.push((x, y));
                    x = y + 2 + rng.range(0, wide / 2);
                }
                if rng.chance(1, 3) { v.push((x, OO)) }
                if rng.chance(4, 5) && !v.iter().any(|q| q.0 <= c && c <= q.1) { v.push((c, c)) }
                if rng.chance(1, 3) { v = vec![*rng.pick(&v)] }
                norm(v)
            };
            let c = sol[i as usize];
            let op = match *rng.pick(ops) {
                "retain" => Op::Retain(i, win(rng, c)),
                "remove" => { let v = win(rng, c);
                    // complement of a window that keeps the solution, most of the time
                    let v = if rng.chance(3, 4) { compl(&v) } else { v };
                    Op::Remove(i, v) }
                "deadline" => Op::Deadline(*sol.iter().max().unwrap() + rng.range(-wide / 4, wide)),
                "startline" => Op::Startline(*sol.iter().min().unwrap() - rng.range(-wide / 4, wide)),
                "look" => Op::Look,
                // a few single dates, the hidden solution's among them most of the time
                "sparse" => {
                    let mut v: P = (0..2 + rng.below(3)).map(|_| { let x = c + rng.range(-wide, wide); (x, x + (rng.chance(1, 4) as i64)) }).collect();
                    if rng.chance(5, 6) { v.push((c, c)) }
                    Op::Retain(i, norm(v))
                }
                // a great many short windows
                "comb" => {
                    let step = rng.range(2, 5);
                    let k = 20 + rng.below(80) as i64;
                    let mut v: P = (0..k).map(|q| { let x = c + step * (q - k / 2); (x, if rng.chance(1, 9) { x + 1 } else { x }) }).collect();
                    if rng.chance(1, 5) { v[0].0 = -OO }
                    if rng.chance(1, 5) { v.last_mut().unwrap().1 = OO }
                    Op::Retain(i, norm(v))
                }
                // a date the agenda still allows (or all but one such)
                "pick" | "drop" => {
                    let q = *rng.pick(&w.first(i));
                    let (a, b) = (q.0.max(-4 * wide), q.1.min(4 * wide));
                    let x = if a > b { a.max(-OO + 1) } else { rng.range(a, b) };
                    if rng.chance(1, 4) { Op::Remove(i, compl(&vec![(x, x)])) } else { Op::Retain(i, vec![(x, x)]) }
                }
                x => panic!("unknown agenda op {x}"),
            };
            let (e, s, go) = w.exec(&op, 0, log);
            ev.push(e); sd.push(s);
            if !go { break }
        }
        log.history(&head(n, &acc), &ev, &sd);
    }
}
/// Agendas in which dropping one date drops another, and so on round all the instants many times.
/// Each instant may follow the one before by at most one tick and the last is less than a full round
/// after the first, so a date in the last window goes with the *next* date of the first one.
pub fn cascade(nmax: u32, hists: usize, len: usize, rng: &mut Rng, log: &mut Log) {
    for _ in 0..hists {
        let n = 3 + rng.below(nmax as u64 - 2) as u32;
        let (unit, turn) = (*rng.pick(&[1i64, 1, 7, 1000]), n as i64 - 1);
        // the instants in any order
        let mut o: Vec<u32> = (0..n).collect();
        for i in (1..n as usize).rev() { o.swap(i, rng.below(i as u64 + 1) as usize) }
        let mut ks: Vec<K> = (1..n as usize).map(|i| (o[i - 1], o[i], 0, unit)).collect();
        ks.push((o[0], o[n as usize - 1], 0, (turn - 1) * unit));
        let (g, acc) = build(n, &ks);
        let mut w = World::new(&g);
        let (mut ev, mut sd) = (vec![], vec![]);
        let rounds = rng.range(4, if n == 3 { 60 } else { 25 });
        let off = rng.range(-20, 20) * unit;
        // wide windows before and after, without which nothing would be left
        let (early, late) = (rng.chance(7, 8), rng.chance(7, 8));
        let date = |i: usize, k: i64| off + (turn * k + i as i64) * unit;
        let mut step = |w: &mut World, op: Op, log: &mut Log| { let (e, s, go) = w.exec(&op, 0, log); ev.push(e); sd.push(s); go };
        let mut live = true;
        for i in 0..n as usize {
            let mut v: P = (0..rounds).map(|k| (date(i, k), date(i, k))).collect();
            if early { v.push((-OO, date(i, -1))) }
            if late { v.push((date(i, rounds), OO)) }
            live = live && step(&mut w, if rng.chance(1, 4) { Op::Remove(o[i], compl(&norm(v))) } else { Op::Retain(o[i], norm(v)) }, log);
        }
        for _ in 0..len {
            if !live { break }
            let (i, k) = (rng.below(n as u64) as usize, rng.range(0, rounds));
            let x = date(i, k);
            let op = match rng.below(6) {
                0 => Op::Deadline(x), 1 => Op::Startline(x), 2 => Op::Retain(o[i], compl(&vec![(x, x)])),
                3 => Op::Retain(o[i], vec![(-OO, x)]),
                _ => Op::Remove(o[i], vec![(x, x)]),
            };
            live = step(&mut w, op, log);
        }
        log.history(&head(n, &acc), &ev, &sd);
    }
}
/// canonical
fn norm(mut v: P) -> P {
    v.sort();
    let mut r: P = vec![];
    for q in v { match r.last_mut() { Some(l) if q.0 <= l.1 + 1 => l.1 = l.1.max(q.1), _ => r.push(q) } }
    r
}
fn compl(v: &P) -> P {
    let mut r = vec![];
    let mut x = -OO;
    for q in v { if q.0 > x { r.push((x, q.0 - 1)) } x = if q.1 >= OO { OO + 1 } else { q.1 + 1 } }
    if x <= OO { r.push((x, OO)) }
    r
}
