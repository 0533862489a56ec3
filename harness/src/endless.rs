//! Lazy chains over endless windows (recurring slots), with a count of what is read from every
//! source.  Parts are relative to a base tick, as in `span`.
use crate::span::*;
use crate::util::*;
use crate::win::{Dyn, Tk};
use chronologic::iter::*;
use chronologic::*;
use std::cell::Cell;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum E { W(AP), F(i64, i64, i64), U, I, X, N, T(i64) }

const H: i64 = 150;
const RUNAWAY: &str = "endless source read too far";

/// a window as a source: finite, or never ending; counts the parts taken
struct Src<T: TimePoint> { fin: Option<std::vec::IntoIter<TimeInterval<T>>>, at: i64, d: i64, n: i64, base: i64, took: Rc<Cell<i64>> }
impl<T: Tk> Iterator for Src<T> {
    type Item = TimeInterval<T>;
    fn next(&mut self) -> Option<TimeInterval<T>> {
        self.took.set(self.took.get() + 1);
        if let Some(f) = &mut self.fin { return f.next(); }
        if self.at > 4 * H { panic!("{RUNAWAY}") }
        let lo = self.base + self.at;
        self.at += self.d;
        Some(TimeInterval::new(T::of(lo), T::of(lo + self.n - 1)))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match &self.fin { Some(f) => f.size_hint(), None => match self.base { 0 => (usize::MAX, None), FAR => (0, None), _ => (0, Some(usize::MAX)) } }
    }
}
impl<T: Tk> TimeConvexIterator for Src<T> { type TimePoint = T; }

fn build<T: Tk>(c: &[E], base: i64) -> (Dyn<T>, Vec<Rc<Cell<i64>>>)
    where TimeInterval<T>: std::ops::Add<TimeValue, Output = TimeInterval<T>> {
    let mut st: Vec<Dyn<T>> = vec![];
    let mut cs = vec![];
    for x in c {
        match x {
            E::W(_) | E::F(..) => {
                let took = Rc::new(Cell::new(0));
                cs.push(took.clone());
                let s = match x {
                    E::W(a) => Src { fin: Some(a.iter().map(|p| TimeInterval::new(T::of(abst(p.0, base)), T::of(abst(p.1, base)))).collect::<Vec<_>>().into_iter()), at: 0, d: 0, n: 0, base, took },
                    E::F(s, d, n) => Src { fin: None, at: *s, d: *d, n: *n, base, took },
                    _ => unreachable!(),
                };
                st.push(Dyn(Box::new(s)));
                continue;
            }
            _ => {}
        }
        let b = st.pop().unwrap();
        let r: Dyn<T> = match x {
            E::N => Dyn(Box::new(b.complementary())),
            E::T(t) => Dyn(Box::new(b.translation(TimeValue::from_ticks(*t)))),
            _ => {
                let a = st.pop().unwrap();
                match x { E::U => Dyn(Box::new(a.union(b))), E::I => Dyn(Box::new(a.intersection(b))), _ => Dyn(Box::new(a.exclusion(b))) }
            }
        };
        st.push(r);
    }
    (st.pop().unwrap(), cs)
}

/// what a run shows: the parts given, what was read from every source after each step, the size hints before each
type Run = (Vec<String>, Vec<String>, Vec<(i64, i64)>);
fn shown(r: &Run) -> String { format!("{{\"p\":[{}],\"n\":[{}],\"s\":{}}}", r.0.join(","), r.1.join(","), jp(&r.2)) }

/// steps the chain until it ends, goes past the horizon or gets lost; `jump` first goes to a part in one go
fn run<T: Tk>(c: &[E], base: i64, jump: Option<(usize, u8, &Run)>) -> Result<(Run, Vec<(i64, i64)>), String>
    where TimeInterval<T>: std::ops::Add<TimeValue, Output = TimeInterval<T>> {
    let (mut it, cs) = guard(|| build::<T>(c, base))?;
    let (mut p, mut n, mut s, mut raw) = (vec![], vec![], vec![], vec![]);
    let hint = |it: &Dyn<T>| -> Result<(i64, i64), String> {
        let (a, b) = guard(|| it.size_hint())?;
        Ok((a.min(900_000) as i64, b.map(|x| x.min(900_000) as i64).unwrap_or(-1)))
    };
    let mut first = jump;
    loop {
        let mut stop = true;
        s.push(hint(&it)?);
        let got = match first.take() {
            None => guard(|| it.next()),
            Some((k, how, old)) => {
                p = old.0[..k].to_vec();
                n = old.1[..k].to_vec();
                s = old.2[..=k].to_vec();
                let mut left = k + 1;
                let mut here = |_: &TimeInterval<T>| { left -= 1; left == 0 };
                guard(|| match how {
                    0 => it.nth(k),
                    1 => it.find(|x| here(x)),
                    2 => { let mut l = None; it.any(|x| { l = Some(x); here(&x) }); l }
                    3 => { let mut l = None; it.all(|x| { l = Some(x); !here(&x) }); l }
                    4 => { let mut l = None; if it.position(|x| { l = Some(x); here(&x) }) != Some(k) { l = None; } l }
                    5 => it.by_ref().skip(k).next(),
                    _ => it.by_ref().take(k + 1).last(),
                })
            }
        };
        match got {
            Ok(None) => p.push("[0]".to_string()),
            Ok(Some(i)) => {
                let (x, y) = (rel(i.lower_bound().tk(), base), rel(i.upper_bound().tk(), base));
                p.push(format!("[{x},{y}]"));
                raw.push((x, y));
                stop = (y > 2 * H && y != OO) || p.len() > 150;
            }
            Err(e) => if e.contains(RUNAWAY) { p.push("[0,0,0]".to_string()) } else { return Err(e) },
        }
        n.push(jints(&cs.iter().map(|x| x.get()).collect::<Vec<_>>()));
        if stop { break; }
        if jump.is_some_and(|(k, _, _)| p.len() > k + 2) { // two more steps suffice
            let old = jump.unwrap().2;
            if p[..] == old.0[..p.len()] { p = old.0.clone(); }
            n.extend_from_slice(&old.1[n.len()..]);
            s.extend_from_slice(&old.2[s.len()..]);
            break;
        }
    }
    Ok(((p, n, s), raw))
}
fn drive<T: Tk>(c: &[E], base: i64, name: &str, out: &mut Out)
    where TimeInterval<T>: std::ops::Add<TimeValue, Output = TimeInterval<T>> {
    let step = run::<T>(c, base, None);
    out.put(name, &base.to_string(), step.as_ref().map(|r| shown(&r.0)).map_err(|e| e.clone()));
    let Ok((old, raw)) = step else { return };
    let m = raw.len();
    let mut ks = vec![1, m / 3, m / 2, m.wrapping_sub(1)];
    ks.retain(|k| *k > 0 && *k < m);
    ks.dedup();
    for (i, k) in ks.into_iter().enumerate() {
        for how in 0..7u8 {
            if i > 0 && (how as usize + k) % 3 != 0 { continue; }
            out.put(&format!("{name}: to part {k}, way {how}"), &base.to_string(), run::<T>(c, base, Some((k, how, &old))).map(|r| shown(&r.0)));
        }
    }
}

fn event(c: &[E], log: &mut Log) -> (String, String) {
    journal(&format!("endless {c:?}"));
    let mut out = Out::new();
    for base in [0, FAR, -EDGE] {
        drive::<TimeValue>(c, base, "durations", &mut out);
        drive::<Timestamp>(c, base, "dates", &mut out);
    }
    log.forms += out.total;
    let code = c.iter().map(|c| match c {
        E::W(a) => format!("{{\"k\":\"w\",\"w\":{}}}", jp(a)),
        E::F(s, d, n) => format!("{{\"k\":\"e\",\"v\":[{s},{d},{n}]}}"),
        E::U => "{\"k\":\"u\"}".into(), E::I => "{\"k\":\"i\"}".into(), E::X => "{\"k\":\"x\"}".into(), E::N => "{\"k\":\"c\"}".into(),
        E::T(t) => format!("{{\"k\":\"t\",\"v\":{t}}}"),
    }).collect::<Vec<_>>().join(",");
    (format!("{{\"o\":\"endless\",\"c\":[{code}],\"r\":{},\"x\":{}}}", out.json(), out.np()), out.forms())
}

fn tok(t: &Tok) -> E {
    let t = t.l();
    match t[0].s() {
        "w" => E::W(parts(&t[1])),
        "e" => { let v = t[1].ints(); E::F(v[0], v[1], v[2]) }
        "u" => E::U, "i" => E::I, "x" => E::X, "c" => E::N,
        _ => E::T(t[1].i()),
    }
}
pub fn replay(lines: &[Vec<Tok>], keep: u64, rng: &mut Rng, log: &mut Log) {
    for l in lines {
        if keep > 1 && !rng.chance(1, keep) { continue; }
        let c: Vec<E> = l[0].l().iter().map(tok).collect();
        let (e, s) = event(&c, log);
        log.history("", &[e], &[s]);
    }
}

pub fn record(n: usize, rng: &mut Rng, log: &mut Log) {
    fn gen(d: usize, rng: &mut Rng, c: &mut Vec<E>) {
        if d == 0 || rng.chance(1, 7) {
            c.push(if rng.chance(3, 5) {
                let p = rng.range(4, 40);
                E::F(rng.range(-30, 60), p, if rng.chance(1, 3) { 1 } else { rng.range(1, p - 2) })
            } else { let m = *rng.pick(&[8, 40, 120]); E::W(random_window(rng, m, 4)) });
            return;
        }
        match rng.below(8) {
            0 => { gen(d - 1, rng, c); c.push(E::N); }
            1 => { gen(d - 1, rng, c); c.push(E::T(rng.range(-30, 30))); }
            k => { gen(d - 1, rng, c); gen(d - 1, rng, c); c.push(match k { 2 | 3 => E::U, 4 | 5 => E::I, _ => E::X }); }
        }
    }
    for _ in 0..n {
        let mut c = vec![];
        let d = 1 + rng.below(4) as usize;
        gen(d, rng, &mut c);
        let (e, s) = event(&c, log);
        log.history("", &[e], &[s]);
    }
}
