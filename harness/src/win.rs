//! Windows over atoms: an abstract window is a set of atoms 0..n-1 of a partition of the
//! time line (atom 0 and atom n-1 are the two unbounded rays).  An embedding places the atoms
//! on real ticks; every abstract operation is executed through every form of the public API,
//! on every embedding, for dates and for durations, and the distinct outcomes are logged.
use crate::util::*;
use chronologic::iter::*;
use chronologic::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

pub const PINF: i64 = i64::MAX;
pub const NINF: i64 = -i64::MAX;

pub struct Emb { pub name: String, pub s: Vec<i64>, pub e: Vec<i64> }

/// no such atom
const LOST: i64 = 9999;
fn find(v: &[i64], t: i64) -> i64 {
    (if v.len() > 64 { v.binary_search(&t).ok() } else { v.iter().position(|&x| x == t) }).map(|i| i as i64).unwrap_or(LOST)
}
impl Emb {
    pub fn n(&self) -> usize { self.s.len() }
    /// from the first tick of atoms 1..n-1
    pub fn from_starts(name: &str, st: &[i64]) -> Emb {
        let mut s = vec![NINF];
        let mut e = vec![];
        for &x in st { e.push(x - 1); s.push(x); }
        e.push(PINF);
        Emb { name: name.to_string(), s, e }
    }
    pub fn unit(name: &str, n: usize, base: i64) -> Emb {
        Self::from_starts(name, &(0..n as i64 - 1).map(|i| base + i).collect::<Vec<_>>())
    }
    pub fn lo(&self, t: i64) -> i64 { if wide() { return t; } find(&self.s, t) }
    pub fn hi(&self, t: i64) -> i64 { if wide() { return t; } find(&self.e, t) }
    pub fn is_unit(&self, i: usize) -> bool { self.s[i] == self.e[i] }
    /// a tick as a position on unit atoms
    pub fn pos(&self, t: i64) -> i64 { if t == PINF { self.n() as i64 - 1 } else if t == NINF { 0 } else { let l = self.lo(t); if l != LOST && self.hi(t) == l { l } else { LOST } } }
    pub fn all_unit(&self) -> bool { (1..self.n() - 1).all(|i| self.is_unit(i)) }
}

pub fn embeddings(n: usize, rng: &mut Rng) -> Vec<Emb> {
    let k = n as i64;
    let mut v = vec![
        Emb::unit("unit0", n, -(k / 2)),
        Emb::unit("unit+max", n, PINF - 1 - (k - 2)),   // the last atom starts at the greatest finite tick
        Emb::unit("unit-max", n, NINF + 2),             // the first atom ends at the least finite tick
        Emb::unit("unit-far", n, -1_700_000_000i64 << 30),
    ];
    for q in 0..2 {
        let mut st = std::collections::BTreeSet::new();
        while st.len() < n - 1 {
            let x = match rng.below(4) {
                0 => rng.range(-20, 20),
                1 => rng.range(-1 << 40, 1 << 40),
                2 => rng.range(NINF + 2, PINF - 1),
                _ => { let y: i64 = st.iter().next().copied().unwrap_or(0); if y < PINF - 10 { y + 1 } else { y - 1 } }
            };
            st.insert(x);
        }
        v.push(Emb::from_starts(&format!("wide{q}"), &st.into_iter().collect::<Vec<_>>()));
    }
    v
}

// windows of more atoms than a word has bits: a mask is then a number in this table
thread_local! { static TABLE: std::cell::RefCell<Vec<Vec<bool>>> = std::cell::RefCell::new(vec![vec![]]); }
pub fn mask(v: Vec<bool>) -> u64 {
    if v.len() < 64 { return v.iter().enumerate().fold(0, |m, (i, &b)| m | (b as u64) << i); }
    if !v.contains(&true) { return 0; }
    TABLE.with(|t| { let mut t = t.borrow_mut(); t.push(v); t.len() as u64 - 1 })
}
/// a window of many atoms: runs, single atoms, any set, every other atom
pub fn many(n: usize, rng: &mut Rng) -> u64 {
    let mut v = vec![false; n];
    match rng.below(8) {
        0 => {}
        1 => { let a = rng.below(n as u64) as usize; let b = a + rng.below((n - a) as u64) as usize; for x in a..=b { v[x] = true } }
        2 => for _ in 0..1 + rng.below(3) { let k = rng.below(n as u64) as usize; v[k] = true },
        3 => for x in v.iter_mut() { *x = rng.chance(1, 2) },
        // nearly every other one, or but one
        k => { let first = (k % 2) as usize; for (i, x) in v.iter_mut().enumerate() { *x = i % 2 == first } for _ in 0..rng.below(8) { let q = rng.below(n as u64) as usize; v[q] = !v[q] }
               if k >= 6 { let a = rng.below(n as u64) as usize; for x in v.iter_mut().skip(a) { *x = !*x } } }
    }
    mask(v)
}
/// a window close to another one: some of its parts, all but some, a few atoms changed, moved by one, its holes
fn near(m: u64, n: usize, rng: &mut Rng) -> u64 {
    let old = runs(m, n);
    let mut v = vec![false; n];
    let drop = *rng.pick(&[0, 1, 2, 50, 97]);
    for (a, b) in &old { if !rng.chance(drop, 100) { for x in *a..=*b { v[x] = true } } }
    match rng.below(6) {
        0 => for _ in 0..1 + rng.below(3) { let k = rng.below(n as u64) as usize; v[k] = !v[k] },
        1 => { for x in v.iter_mut() { *x = !*x } if rng.chance(1, 2) { let k = rng.below(n as u64) as usize; v[k] = !v[k] } }
        2 => v.rotate_left(1),
        // a few instants of some parts only
        3 => for x in v.iter_mut() { *x = *x && rng.chance(1, 2) },
        _ => {}
    }
    mask(v)
}
/// maximal runs of a mask
pub fn runs(m: u64, n: usize) -> Vec<(usize, usize)> {
    let mut r: Vec<(usize, usize)> = vec![];
    if n >= 64 {
        return TABLE.with(|t| { let t = t.borrow(); let v = &t[m as usize];
            for (i, &b) in v.iter().enumerate() { if b { match r.last_mut() { Some(l) if l.1 + 1 == i => l.1 = i, _ => r.push((i, i)) } } }
            r });
    }
    let mut i = 0;
    while i < n {
        if m >> i & 1 == 1 {
            let j = i;
            while i + 1 < n && m >> (i + 1) & 1 == 1 { i += 1; }
            r.push((j, i));
        }
        i += 1;
    }
    r
}
/// in wide mode outcomes are the ticks themselves, written as wide integers
static WIDE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn wide() -> bool { WIDE.load(std::sync::atomic::Ordering::Relaxed) }
pub fn set_wide(b: bool) { WIDE.store(b, std::sync::atomic::Ordering::Relaxed) }
pub fn num(x: i64) -> String { if wide() { crate::num::wj(x) } else { x.to_string() } }
pub fn jparts(p: &[(i64, i64)]) -> String {
    format!("[{}]", p.iter().map(|x| format!("[{},{}]", num(x.0), num(x.1))).collect::<Vec<_>>().join(","))
}
/// size hints
pub fn jhints(p: &[(i64, i64)]) -> String {
    format!("[{}]", p.iter().map(|x| format!("[{},{}]", x.0, x.1)).collect::<Vec<_>>().join(","))
}
pub fn jmask(m: u64, n: usize) -> String {
    jparts(&runs(m, n).iter().map(|x| (x.0 as i64, x.1 as i64)).collect::<Vec<_>>())
}

pub trait Tk: TimePoint + 'static { fn of(t: i64) -> Self; fn tk(self) -> i64; }
impl Tk for TimeValue { fn of(t: i64) -> Self { TimeValue::from_ticks(t) } fn tk(self) -> i64 { self.as_ticks() } }
impl Tk for Timestamp { fn of(t: i64) -> Self { Timestamp::from_origin(TimeValue::from_ticks(t)) } fn tk(self) -> i64 { self.since_origin().as_ticks() } }

/// what an iterator may do its own way, reachable through a pointer
pub trait Obj<X>: Iterator<Item = X> {
    fn count_(self: Box<Self>) -> usize;
    fn last_(self: Box<Self>) -> Option<X>;
    fn fold_(self: Box<Self>, f: &mut dyn FnMut(X));
    fn all_(&mut self, f: &mut dyn FnMut(X) -> bool) -> bool;
    fn any_(&mut self, f: &mut dyn FnMut(X) -> bool) -> bool;
    fn position_(&mut self, f: &mut dyn FnMut(X) -> bool) -> Option<usize>;
    fn find_(&mut self, f: &mut dyn FnMut(&X) -> bool) -> Option<X>;
}
impl<X, I: Iterator<Item = X>> Obj<X> for I {
    fn count_(self: Box<Self>) -> usize { (*self).count() }
    fn last_(self: Box<Self>) -> Option<X> { (*self).last() }
    fn fold_(self: Box<Self>, f: &mut dyn FnMut(X)) { (*self).fold((), |(), x| f(x)) }
    fn all_(&mut self, f: &mut dyn FnMut(X) -> bool) -> bool { self.all(f) }
    fn any_(&mut self, f: &mut dyn FnMut(X) -> bool) -> bool { self.any(f) }
    fn position_(&mut self, f: &mut dyn FnMut(X) -> bool) -> Option<usize> { self.position(f) }
    fn find_(&mut self, f: &mut dyn FnMut(&X) -> bool) -> Option<X> { self.find(|x| f(x)) }
}
/// A lazy chain with its concrete type hidden
pub struct Dyn<T: TimePoint>(pub Box<dyn Obj<TimeInterval<T>>>);
impl<T: TimePoint> Iterator for Dyn<T> {
    type Item = TimeInterval<T>;
    fn next(&mut self) -> Option<Self::Item> { self.0.next() }
    fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
    fn nth(&mut self, n: usize) -> Option<Self::Item> { self.0.nth(n) }
    fn count(self) -> usize { self.0.count_() }
    fn last(self) -> Option<Self::Item> { self.0.last_() }
    fn fold<B, F: FnMut(B, Self::Item) -> B>(self, init: B, mut f: F) -> B {
        let mut acc = Some(init);
        self.0.fold_(&mut |x| { let a = acc.take().unwrap(); acc = Some(f(a, x)) });
        acc.unwrap()
    }
    fn all<F: FnMut(Self::Item) -> bool>(&mut self, mut f: F) -> bool { self.0.all_(&mut f) }
    fn any<F: FnMut(Self::Item) -> bool>(&mut self, mut f: F) -> bool { self.0.any_(&mut f) }
    fn position<F: FnMut(Self::Item) -> bool>(&mut self, mut f: F) -> Option<usize> { self.0.position_(&mut f) }
    fn find<F: FnMut(&Self::Item) -> bool>(&mut self, mut f: F) -> Option<Self::Item> { self.0.find_(&mut f) }
}
/// Whether every other way to go through a lazy window, from its start or after some steps, agrees
/// with step by step: fold, count, last, nth, all, any, position, find.
pub fn ways<T: Tk, I: Iterator<Item = TimeInterval<T>>>(mk: &dyn Fn() -> I) -> bool {
    ways_by(mk, &|x: &TimeInterval<T>| (x.lower_bound().tk(), x.upper_bound().tk()))
}
pub fn ways_by<X, K: PartialEq + Copy, I: Iterator<Item = X>>(mk: &dyn Fn() -> I, key: &dyn Fn(&X) -> K) -> bool {
    let b = |x: X| key(&x);
    let mut l = vec![];
    let mut it = mk();
    while let Some(x) = it.next() { if l.len() > LIM { return true } l.push(b(x)) }
    let n = l.len();
    let mut ks = vec![0, 1, n / 2, n, n + 1];
    ks.sort(); ks.dedup();
    ks.into_iter().all(|k| {
        let at = || { let mut it = mk(); for _ in 0..k { it.next(); } it };
        let r: &[K] = if k < n { &l[k..] } else { &[] };
        let mid = r.get(r.len() / 2).copied();
        let mut f = vec![];
        at().fold((), |(), x| f.push(b(x)));
        let mut g = vec![];
        at().all(|x| { g.push(b(x)); true });
        let mut h = vec![];
        let mut some = at();
        let any = some.any(|x| { let x = b(x); h.push(x); Some(x) == mid });
        let seen = if mid.is_some() { r.len() / 2 + 1 } else { 0 };
        let mut pos = at();
        let mut fnd = at();
        f == r && g == r && h == r[..seen] && any == mid.is_some() && some.next().map(b) == r.get(seen).copied()
            && pos.position(|x| Some(b(x)) == mid) == mid.map(|_| r.len() / 2) && pos.next().map(b) == r.get(seen).copied()
            && fnd.find(|x| Some(key(x)) == mid).map(b) == mid && fnd.next().map(b) == r.get(seen).copied()
            && at().count() == r.len() && at().last().map(b) == r.last().copied()
            && [0, 1, r.len() / 2, r.len().saturating_sub(1), r.len(), r.len() + 3].into_iter().all(|j| {
                let mut it = at();
                it.nth(j).map(b) == r.get(j).copied() && it.next().map(b) == r.get(j + 1).copied()
            })
    })
}
/// a part that no window has, when one of the ways disagrees
pub const ASTRAY: (i64, i64) = (9998, 9997);
impl<T: TimePoint> TimeConvexIterator for Dyn<T> { type TimePoint = T; }

const LIM: usize = 2000;
pub fn proj<T: Tk>(em: &Emb, it: impl Iterator<Item = TimeInterval<T>>) -> Vec<(i64, i64)> {
    it.take(LIM).map(|p| (em.lo(p.lower_bound().tk()), em.hi(p.upper_bound().tk()))).collect()
}
pub fn ps<T: Tk>(em: &Emb, s: &TimeSet<T>) -> String {
    let p = proj(em, s.iter());
    if s.is_empty() != p.is_empty() || s.convex_count() != p.len() { return jparts(&[(9998, 9997)]); }
    jparts(&p)
}
pub fn pi<T: Tk>(em: &Emb, s: TimeInterval<T>) -> String {
    if s.is_empty() { "[]".into() } else { jparts(&[(em.lo(s.lower_bound().tk()), em.hi(s.upper_bound().tk()))]) }
}
/// steps a lazy iterator: parts, hints before each step, answers after the end
pub fn drive<T: Tk, I: Iterator<Item = TimeInterval<T>>>(em: &Emb, mk: &dyn Fn() -> I) -> String {
    let mut it = mk();
    let mut parts = vec![];
    let mut hints = vec![];
    loop {
        let (a, b) = it.size_hint();
        hints.push((a.min(100_000) as i64, b.map(|x| x.min(100_000) as i64).unwrap_or(-1)));
        if parts.len() > LIM { break; }
        match it.next() { None => break, Some(p) => parts.push((em.lo(p.lower_bound().tk()), em.hi(p.upper_bound().tk()))) }
    }
    let mut tail = 0;
    for _ in 0..3 {
        let (a, b) = it.size_hint();
        if a > 0 || b.is_none() { tail += 10; }
        if it.next().is_some() { tail += 1; }
    }
    if !ways(mk) { parts.push(ASTRAY) }
    format!("{{\"p\":{},\"s\":{},\"t\":{}}}", jparts(&parts), jhints(&hints), tail)
}
/// nth / count / last of fresh copies of one chain
pub fn jumps<T: Tk>(em: &Emb, mk: &dyn Fn() -> Dyn<T>) -> String {
    let one = |x: Option<TimeInterval<T>>| x.map(|p| format!("[[{},{}]]", num(em.lo(p.lower_bound().tk())), num(em.hi(p.upper_bound().tk())))).unwrap_or("[]".into());
    let mut v = vec![];
    for k in 0..4 {
        let mut it = mk();
        let a = one(it.nth(k));
        v.push(format!("[{},{}]", a, one(it.next())));
    }
    format!("{{\"n\":[{}],\"c\":{},\"l\":{}}}", v.join(","), mk().count(), one(mk().last()))
}

pub fn hash_of<H: Hash>(h: &H) -> u64 { let mut s = DefaultHasher::new(); h.hash(&mut s); s.finish() }

/// expands the body for every API kind that can hold the (convex or empty) window `$m`
macro_rules! each_cvx {
    ($em:expr, $m:expr, $T:ty, |$name:ident, $v:ident| $body:block) => {{
        let em: &Emb = $em;
        let rr = runs($m, em.n());
        if rr.is_empty() {
            { let $name = "iv0"; let $v = TimeInterval::<$T>::empty(); $body }
            { let $name = "new0"; let $v = TimeInterval::<$T>::new(<$T>::of(5), <$T>::of(4)); $body }
            { let $name = "a..a"; let $v = <$T>::of(3)..<$T>::of(3); $body }
            { let $name = "a..=b0"; let $v = <$T>::of(3)..=<$T>::of(2); $body }
        } else if rr.len() == 1 {
            let (s, e) = (em.s[rr[0].0], em.e[rr[0].1]);
            { let $name = "iv"; let $v = TimeInterval::<$T>::new(<$T>::of(s), <$T>::of(e)); $body }
            if s != NINF && e != PINF {
                { let $name = "a..=b"; let $v = <$T>::of(s)..=<$T>::of(e); $body }
                if e < PINF - 1 { let $name = "a..b"; let $v = <$T>::of(s)..<$T>::of(e + 1); $body }
                if s == e { let $name = "pt"; let $v = <$T>::of(s); $body }
            } else if s == NINF && e != PINF {
                { let $name = "..=b"; let $v = ..=<$T>::of(e); $body }
                if e < PINF - 1 { let $name = "..b"; let $v = ..<$T>::of(e + 1); $body }
            } else if s != NINF && e == PINF {
                { let $name = "a.."; let $v = <$T>::of(s)..; $body }
            }
        }
    }};
}

#[inline(never)]
pub fn put_dyn(out: &mut Out, a: &str, b: &str, em: &str, f: &mut dyn FnMut() -> String) {
    let r = guard(f);
    let name = if b.is_empty() { a.to_string() } else { format!("{a}:{b}") };
    out.put(&name, em, r);
}
macro_rules! put {
    ($out:expr, $em:expr, $a:expr, $b:expr, $body:expr) => {{
        put_dyn($out, $a, &$b, &$em.name, &mut || $body);
    }};
}

macro_rules! wmod { ($m:ident, $T:ty) => { pub mod $m {
    use super::*;
    type T = $T;
    type Set = TimeSet<T>;

    pub fn mk(em: &Emb, m: u64) -> Set {
        runs(m, em.n()).iter().map(|r| TimeInterval::new(T::of(em.s[r.0]), T::of(em.e[r.1]))).collect()
    }
    pub fn raw(w: &[(i64, i64)]) -> Set { w.iter().map(|p| TimeInterval::new(T::of(p.0), T::of(p.1))).collect() }
    pub fn obs(em: &Emb, s: &Set) -> String { ps(em, s) }

    /// set-valued binary operations: o = 0 union, 1 intersection, 2 exclusion
    pub fn binary(em: &Emb, o: u8, w: &Set, wm: u64, bm: u64, out: &mut Out) -> Option<Set> {
        let b = match guard(|| mk(em, bm)) { Ok(b) => b, Err(e) => { out.put("build", &em.name, Err(e)); return None; } };
        let res;
        match o {
            0 => {
                res = guard(|| w | &b).ok();
                put!(out, em, "S|S", "", ps(em, &(w.clone() | b.clone())));
                put!(out, em, "S|&S", "", ps(em, &(w.clone() | &b)));
                put!(out, em, "&S|S", "", ps(em, &(w | b.clone())));
                put!(out, em, "&S|&S", "", ps(em, &(w | &b)));
                put!(out, em, "S|=S", "", { let mut x = w.clone(); x |= b.clone(); ps(em, &x) });
                put!(out, em, "S|=&S", "", { let mut x = w.clone(); x |= &b; ps(em, &x) });
                put!(out, em, "it.union(it)", "", jparts(&proj(em, w.iter().union(b.iter()))));
                put!(out, em, "it.union(into)", "", jparts(&proj(em, w.into_iter().union((&b).into_iter()))));
                put!(out, em, "it.union(S)", "", jparts(&proj(em, w.iter().union(b.clone()))));
                put!(out, em, "it.union(&S)", "", jparts(&proj(em, w.iter().union(&b))));
                put!(out, em, "it.union.collect", "", ps(em, &w.iter().union(&b).collect::<Set>()));
                put!(out, em, "collect[S,S]", "", ps(em, &[w.clone(), b.clone()].into_iter().collect::<Set>()));
                each_cvx!(em, bm, T, |nm, v| {
                    put!(out, em, "S|cv", nm, ps(em, &(w.clone() | v.clone())));
                    put!(out, em, "&S|cv", nm, ps(em, &(w | v.clone())));
                    put!(out, em, "S|=cv", nm, { let mut x = w.clone(); x |= v.clone(); ps(em, &x) });
                    put!(out, em, "it.union(iv)", nm, jparts(&proj(em, w.iter().union(TimeInterval::from(v.clone())))));
                    put!(out, em, "it.union(&iv)", nm, jparts(&proj(em, w.iter().union(&TimeInterval::from(v.clone())))));
                    put!(out, em, "S|cv.iter", nm, jparts(&proj(em, w.iter().union(v.iter()))));
                });
                union_ranges(em, w, bm, out);
                each_cvx!(em, wm, T, |na, a| {
                    put!(out, em, "cv.iter.union(&S)", na, jparts(&proj(em, a.iter().union(&b))));
                });
                if let Some(a) = cviv(em, wm) {
                    each_cvx!(em, bm, T, |nb, v| {
                        put!(out, em, "iv|cv", nb, ps(em, &(a | v.clone())));
                        put!(out, em, "&iv|cv", nb, ps(em, &(&a | v.clone())));
                    });
                }
                if let Some(p) = point(em, wm) {
                    each_cvx!(em, bm, T, |nb, v| { put!(out, em, "pt|cv", nb, ps(em, &(p | v.clone()))); });
                }
            }
            1 => {
                res = guard(|| w & &b).ok();
                put!(out, em, "S&S", "", ps(em, &(w.clone() & b.clone())));
                put!(out, em, "S&&S", "", ps(em, &(w.clone() & &b)));
                put!(out, em, "&S&S", "", ps(em, &(w & b.clone())));
                put!(out, em, "&S&&S", "", ps(em, &(w & &b)));
                put!(out, em, "S&=S", "", { let mut x = w.clone(); x &= b.clone(); ps(em, &x) });
                put!(out, em, "S&=&S", "", { let mut x = w.clone(); x &= &b; ps(em, &x) });
                put!(out, em, "it.inter(it)", "", jparts(&proj(em, w.iter().intersection(b.iter()))));
                put!(out, em, "it.inter(into)", "", jparts(&proj(em, w.into_iter().intersection((&b).into_iter()))));
                put!(out, em, "it.inter(S)", "", jparts(&proj(em, w.iter().intersection(b.clone()))));
                put!(out, em, "it.inter(&S)", "", jparts(&proj(em, w.iter().intersection(&b))));
                put!(out, em, "it.inter.collect", "", ps(em, &w.iter().intersection(&b).collect::<Set>()));
                each_cvx!(em, bm, T, |nm, v| {
                    put!(out, em, "S&cv", nm, ps(em, &(w.clone() & v.clone())));
                    put!(out, em, "&S&cv", nm, ps(em, &(w & v.clone())));
                    put!(out, em, "S&=cv", nm, { let mut x = w.clone(); x &= v.clone(); ps(em, &x) });
                    put!(out, em, "it.inter(iv)", nm, jparts(&proj(em, w.iter().intersection(TimeInterval::from(v.clone())))));
                    put!(out, em, "it.inter(&iv)", nm, jparts(&proj(em, w.iter().intersection(&TimeInterval::from(v.clone())))));
                    put!(out, em, "it.inter(cv.iter)", nm, jparts(&proj(em, w.iter().intersection(v.iter()))));
                });
                inter_ranges(em, w, bm, out);
                each_cvx!(em, wm, T, |na, a| {
                    put!(out, em, "cv.iter.inter(&S)", na, jparts(&proj(em, a.iter().intersection(&b))));
                });
                if let Some(a) = cviv(em, wm) {
                    each_cvx!(em, bm, T, |nb, v| {
                        put!(out, em, "iv&cv", nb, pi(em, a & v.clone()));
                        put!(out, em, "&iv&cv", nb, pi(em, &a & v.clone()));
                        put!(out, em, "iv&=cv", nb, { let mut x = a; x &= v.clone(); pi(em, x) });
                        put!(out, em, "Set(iv&cv)", nb, ps(em, &Set::from(a & v.clone())));
                    });
                }
                if let Some(p) = point(em, wm) {
                    each_cvx!(em, bm, T, |nb, v| { put!(out, em, "pt&cv", nb, pi(em, p & v.clone())); });
                }
            }
            _ => {
                res = guard(|| w & !b.clone()).ok();
                put!(out, em, "it.excl(it)", "", jparts(&proj(em, w.iter().exclusion(b.iter()))));
                put!(out, em, "it.excl(into)", "", jparts(&proj(em, w.into_iter().exclusion((&b).into_iter()))));
                put!(out, em, "it.excl.collect", "", ps(em, &w.iter().exclusion(b.iter()).collect::<Set>()));
                put!(out, em, "S&!S", "", ps(em, &(w & !b.clone())));
                put!(out, em, "S&=!S", "", { let mut x = w.clone(); x &= !b.clone(); ps(em, &x) });
                each_cvx!(em, bm, T, |nb, v| {
                    put!(out, em, "it.excl(cv.iter)", nb, jparts(&proj(em, w.iter().exclusion(v.iter()))));
                    put!(out, em, "S&!iv", nb, ps(em, &(w & !TimeInterval::<T>::from(v.clone()))));
                });
                if let Some(p) = point(em, bm) { put!(out, em, "S&!pt", "", ps(em, &(w & !p))); }
                if let Some(a) = cviv(em, wm) {
                    put!(out, em, "iv.iter.excl(it)", "", jparts(&proj(em, a.iter().exclusion(b.iter()))));
                    each_cvx!(em, bm, T, |nb, v| {
                        put!(out, em, "iv.iter.excl(cv.iter)", nb, jparts(&proj(em, a.iter().exclusion(v.iter()))));
                    });
                }
            }
        }
        res
    }

    /// the window as one interval, when it is convex or empty
    fn cviv(em: &Emb, m: u64) -> Option<TimeInterval<T>> {
        let r = runs(m, em.n());
        match r.len() { 0 => Some(TimeInterval::empty()), 1 => Some(TimeInterval::new(T::of(em.s[r[0].0]), T::of(em.e[r[0].1]))), _ => None }
    }
    fn point(em: &Emb, m: u64) -> Option<T> {
        let r = runs(m, em.n());
        if r.len() == 1 && em.s[r[0].0] == em.e[r[0].1] { Some(T::of(em.s[r[0].0])) } else { None }
    }

    // range operands have their own union / intersection implementations
    fn union_ranges(em: &Emb, w: &Set, bm: u64, out: &mut Out) {
        let r = runs(bm, em.n());
        if r.len() != 1 { if bm == 0 { put!(out, em, "it.union(a..a)", "", jparts(&proj(em, w.iter().union(T::of(1)..T::of(1))))); } return; }
        let (s, e) = (em.s[r[0].0], em.e[r[0].1]);
        if s != NINF && e != PINF {
            put!(out, em, "it.union(a..=b)", "", jparts(&proj(em, w.iter().union(T::of(s)..=T::of(e)))));
            put!(out, em, "it.union(a..b)", "", jparts(&proj(em, w.iter().union(T::of(s)..T::of(e + 1)))));
        } else if s == NINF && e != PINF {
            put!(out, em, "it.union(..=b)", "", jparts(&proj(em, w.iter().union(..=T::of(e)))));
            put!(out, em, "it.union(..b)", "", jparts(&proj(em, w.iter().union(..T::of(e + 1)))));
        } else if s != NINF {
            put!(out, em, "it.union(a..)", "", jparts(&proj(em, w.iter().union(T::of(s)..))));
        }
    }
    fn inter_ranges(em: &Emb, w: &Set, bm: u64, out: &mut Out) {
        let r = runs(bm, em.n());
        if r.len() != 1 { if bm == 0 { put!(out, em, "it.inter(a..a)", "", jparts(&proj(em, w.iter().intersection(T::of(1)..T::of(1))))); } return; }
        let (s, e) = (em.s[r[0].0], em.e[r[0].1]);
        if s != NINF && e != PINF {
            put!(out, em, "it.inter(a..=b)", "", jparts(&proj(em, w.iter().intersection(T::of(s)..=T::of(e)))));
            put!(out, em, "it.inter(a..b)", "", jparts(&proj(em, w.iter().intersection(T::of(s)..T::of(e + 1)))));
        } else if s == NINF && e != PINF {
            put!(out, em, "it.inter(..=b)", "", jparts(&proj(em, w.iter().intersection(..=T::of(e)))));
            put!(out, em, "it.inter(..b)", "", jparts(&proj(em, w.iter().intersection(..T::of(e + 1)))));
        } else if s != NINF {
            put!(out, em, "it.inter(a..)", "", jparts(&proj(em, w.iter().intersection(T::of(s)..))));
        }
    }

    pub fn compl(em: &Emb, w: &Set, wm: u64, out: &mut Out) -> Option<Set> {
        let res = guard(|| !w.clone()).ok();
        put!(out, em, "!S", "", ps(em, &!w.clone()));
        put!(out, em, "it.compl", "", jparts(&proj(em, w.iter().complementary())));
        put!(out, em, "it.compl(into)", "", jparts(&proj(em, w.into_iter().complementary())));
        put!(out, em, "it.compl.collect", "", ps(em, &w.iter().complementary().collect::<Set>()));
        put!(out, em, "!!!S", "", ps(em, &!!!w.clone()));
        put!(out, em, "it.compl^3", "", jparts(&proj(em, w.iter().complementary().complementary().complementary())));
        each_cvx!(em, wm, T, |na, a| {
            put!(out, em, "!iv", na, ps(em, &!TimeInterval::<T>::from(a.clone())));
            put!(out, em, "cv.iter.compl", na, jparts(&proj(em, a.iter().complementary())));
        });
        if let Some(p) = point(em, wm) { put!(out, em, "!pt", "", ps(em, &!p)); }
        res
    }
    /// complementing twice
    pub fn compl2(em: &Emb, w: &Set, wm: u64, out: &mut Out) {
        put!(out, em, "!!S", "", ps(em, &!!w.clone()));
        put!(out, em, "it.compl^2", "", jparts(&proj(em, w.iter().complementary().complementary())));
        each_cvx!(em, wm, T, |na, a| { put!(out, em, "!!iv", na, ps(em, &!!TimeInterval::<T>::from(a.clone()))); });
        if let Some(p) = point(em, wm) { put!(out, em, "!!pt", "", ps(em, &!!p)); }
    }

    /// truncation; before=true keeps what is not earlier than the first tick of atom t,
    /// otherwise what is not later than the last tick of atom t.  Outcome [changed, parts]
    pub fn trunc(em: &Emb, before: bool, w: &Set, wm: u64, t: usize, out: &mut Out) -> Option<Set> {
        let d = T::of(if before { em.s[t] } else { em.e[t] });
        let mut res = None;
        put!(out, em, "S", "", {
            let mut x = w.clone();
            let c = if before { x.truncate_before(d) } else { x.truncate_after(d) };
            let s = format!("{{\"c\":{},\"p\":{}}}", c as u8, ps(em, &x));
            res = Some(x);
            s
        });
        each_cvx!(em, wm, T, |na, a| {
            put!(out, em, "iv", na, {
                let mut x = TimeInterval::<T>::from(a.clone());
                let c = if before { x.truncate_before(d) } else { x.truncate_after(d) };
                format!("{{\"c\":{},\"p\":{}}}", c as u8, pi(em, x))
            });
        });
        res
    }

    /// containment, overlap, equality (and hash) of two windows: outcome 0/1 (2: hash mismatch)
    pub fn relation(em: &Emb, o: u8, w: &Set, wm: u64, bm: u64, out: &mut Out) {
        let b = match guard(|| mk(em, bm)) { Ok(b) => b, Err(_) => return };
        let n = |x: bool| (x as u8).to_string();
        match o {
            0 => {
                put!(out, em, "S has S", "", n(w.contains(&b)));
                each_cvx!(em, bm, T, |nb, v| { put!(out, em, "S has cv", nb, n(w.contains(&v))); });
                each_cvx!(em, wm, T, |na, a| {
                    put!(out, em, "cv has S", na, n(TimeContaining::contains(&a, &b)));
                    each_cvx!(em, bm, T, |nb, v| { put!(out, em, "cv has cv", format!("{na},{nb}"), n(TimeContaining::contains(&a, &v))); });
                });
            }
            1 => {
                put!(out, em, "S ov S", "", n(w.overlaps(&b)));
                each_cvx!(em, bm, T, |nb, v| { put!(out, em, "S ov cv", nb, n(w.overlaps(&v))); });
                each_cvx!(em, wm, T, |na, a| {
                    put!(out, em, "cv ov S", na, n(a.overlaps(&b)));
                    each_cvx!(em, bm, T, |nb, v| { put!(out, em, "cv ov cv", format!("{na},{nb}"), n(a.overlaps(&v))); });
                });
            }
            _ => {
                put!(out, em, "S==S", "", n(w == &b));
                put!(out, em, "S!=S", "", n(!(w != &b)));
                put!(out, em, "S==S,hash", "", if w == &b && hash_of(w) != hash_of(&b) { "2".to_string() } else { n(w == &b) });
                each_cvx!(em, bm, T, |nb, v| {
                    put!(out, em, "S==cv", nb, n(w == &v));
                    put!(out, em, "S!=cv", nb, n(!(w != &v)));
                });
                if let Some(i) = cviv(em, wm) {
                    put!(out, em, "iv==S", "", n(i == b));
                    put!(out, em, "S(iv)==S", "", n(Set::from(i) == b));
                    each_cvx!(em, bm, T, |nb, v| {
                        let j = TimeInterval::<T>::from(v.clone());
                        put!(out, em, "iv==cv", nb, n(i == v));
                        put!(out, em, "iv!=cv", nb, n(!(i != v)));
                        put!(out, em, "iv==iv,hash", nb, if i == j && hash_of(&i) != hash_of(&j) { "2".to_string() } else { n(i == j) });
                    });
                }
            }
        }
    }

    /// precedence of two windows: [lt, gt, le, ge, partial_cmp]
    pub fn order(em: &Emb, w: &Set, wm: u64, bm: u64, out: &mut Out) {
        let b = match guard(|| mk(em, bm)) { Ok(b) => b, Err(_) => return };
        fn pc(o: Option<std::cmp::Ordering>) -> i32 { match o { None => 2, Some(x) => x as i32 } }
        macro_rules! five { ($x:expr, $y:expr) => {{ let (x, y) = (&$x, &$y);
            format!("[{},{},{},{},{}]", (x < y) as u8, (x > y) as u8, (x <= y) as u8, (x >= y) as u8, pc(x.partial_cmp(y))) }}; }
        put!(out, em, "S?S", "", five!(*w, b));
        each_cvx!(em, bm, T, |nb, v| { put!(out, em, "S?cv", nb, five!(*w, v)); });
        if let Some(i) = cviv(em, wm) {
            put!(out, em, "iv?S", "", five!(i, b));
            each_cvx!(em, bm, T, |nb, v| { put!(out, em, "iv?cv", nb, five!(i, v)); });
        }
    }

    /// shape queries of one window
    pub fn shape(em: &Emb, w: &Set, wm: u64, out: &mut Out) {
        macro_rules! sh { ($x:expr) => {{ let x = &$x;
            // lower/upper bounds and envelope are meaningful on non-empty windows only
            let (l, u, en) = if x.is_empty() { (0, 0, "[]".to_string()) } else {
                (em.lo(x.lower_bound().tk()), em.hi(x.upper_bound().tk()), pi(em, x.convex_envelope())) };
            format!("{{\"em\":{},\"si\":{},\"al\":{},\"cv\":{},\"cn\":{},\"lb\":{},\"ub\":{},\"bd\":{},\"lo\":{},\"up\":{},\"en\":{}}}",
                x.is_empty() as u8, x.is_singleton() as u8, x.is_all() as u8, x.is_convex() as u8, x.convex_count(),
                x.is_low_bounded() as u8, x.is_up_bounded() as u8, x.is_bounded() as u8, num(l), num(u), en) }}; }
        put!(out, em, "S", "", sh!(*w));
        each_cvx!(em, wm, T, |na, a| {
            put!(out, em, "cv", na, sh!(a));
            put!(out, em, "iv", na, sh!(TimeInterval::<T>::from(a.clone())));
        });
    }

    /// builders on unit atoms; x, y are positions (0: -oo, n-1: +oo)
    pub fn build(em: &Emb, k: &str, x: usize, y: usize, out: &mut Out) {
        let tick = |p: usize| if p == 0 { T::of(NINF) } else if p == em.n() - 1 { T::of(PINF) } else { T::of(em.s[p]) };
        let (a, b) = (tick(x), tick(y));
        match k {
            "new" => {
                put!(out, em, "TimeInterval::new", "", pi(em, TimeInterval::new(a, b)));
                put!(out, em, "(a,b).into", "", pi(em, TimeInterval::from((a, b))));
                put!(out, em, "TimeSet::convex", "", ps(em, &Set::convex(a, b)));
                put!(out, em, "Set::from(new)", "", ps(em, &Set::from(TimeInterval::new(a, b))));
                put!(out, em, "new.iter", "", jparts(&proj(em, TimeInterval::new(a, b).iter())));
                put!(out, em, "new.into_iter", "", jparts(&proj(em, TimeInterval::new(a, b).into_iter())));
                if x <= y && x != em.n() - 1 && y != 0 {
                    put!(out, em, "new_unchecked", "", pi(em, unsafe { TimeInterval::new_unchecked(a, b) }));
                }
            }
            "single" => {
                put!(out, em, "TimeInterval::singleton", "", pi(em, TimeInterval::singleton(a)));
                put!(out, em, "TimeInterval::from(t)", "", pi(em, TimeInterval::from(a)));
                put!(out, em, "TimeSet::singleton", "", ps(em, &Set::singleton(a)));
                if a.is_finite() {
                    put!(out, em, "TimeSet::from(t)", "", ps(em, &Set::from(a)));
                    put!(out, em, "t.iter", "", jparts(&proj(em, a.iter())));
                }
            }
            "after" => { put!(out, em, "after", "", pi(em, TimeInterval::after(a))); put!(out, em, "Set(after)", "", ps(em, &Set::from(TimeInterval::after(a)))); }
            "before" => { put!(out, em, "before", "", pi(em, TimeInterval::before(a))); put!(out, em, "Set(before)", "", ps(em, &Set::from(TimeInterval::before(a)))); }
            "all" => {
                put!(out, em, "TimeInterval::all", "", pi(em, TimeInterval::<T>::all()));
                put!(out, em, "TimeSet::all", "", ps(em, &Set::all()));
                put!(out, em, "(..)", "", pi(em, TimeInterval::<T>::from(..)));
            }
            "empty" => {
                put!(out, em, "TimeInterval::empty", "", pi(em, TimeInterval::<T>::empty()));
                put!(out, em, "TimeInterval::default", "", pi(em, TimeInterval::<T>::default()));
                put!(out, em, "TimeSet::empty", "", ps(em, &Set::empty()));
                put!(out, em, "Set::from(empty)", "", ps(em, &Set::from(TimeInterval::<T>::empty())));
                put!(out, em, "empty.collect", "", ps(em, &std::iter::empty::<TimeInterval<T>>().collect::<Set>()));
                put!(out, em, "empty sets", "", ps(em, &std::iter::empty::<Set>().collect::<Set>()));
            }
            _ => {
                macro_rules! rg { ($r:expr) => {{ let r = $r;
                    put!(out, em, "iv.from(range)", k, pi(em, TimeInterval::<T>::from(r.clone())));
                    put!(out, em, "Set.from(range)", k, ps(em, &Set::from(r.clone())));
                    put!(out, em, "range.iter", k, jparts(&proj(em, r.iter())));
                    put!(out, em, "range bounds", k, if TimeBounds::is_empty(&r) { "[]".to_string() } else { jparts(&[(em.lo(r.lower_bound().tk()), em.hi(r.upper_bound().tk()))]) });
                    put!(out, em, "range in union", k, ps(em, &(Set::empty() | r.clone())));
                }}; }
                match k {
                    "a..b" => rg!(a..b),
                    "a..=b" => rg!(a..=b),
                    "a.." => rg!(a..),
                    "..b" => rg!(..b),
                    "..=b" => rg!(..=b),
                    _ => panic!("unknown builder {k}"),
                }
            }
        }
    }

    /// collecting intervals, and sets, in the given order
    pub fn collect(em: &Emb, l: &[u64], out: &mut Out) {
        let ivs: Vec<TimeInterval<T>> = l.iter().flat_map(|&m| {
            let r = runs(m, em.n());
            if r.is_empty() { vec![TimeInterval::empty()] } else { r.iter().map(|x| TimeInterval::new(T::of(em.s[x.0]), T::of(em.e[x.1]))).collect() }
        }).collect();
        put!(out, em, "collect ivs", "", ps(em, &ivs.iter().copied().collect::<Set>()));
        put!(out, em, "fold |=", "", { let mut s = Set::empty(); for i in &ivs { s |= *i; } ps(em, &s) });
        put!(out, em, "collect sets", "", ps(em, &l.iter().map(|&m| mk(em, m)).collect::<Set>()));
        put!(out, em, "collect single sets", "", ps(em, &ivs.iter().map(|i| Set::from(*i)).collect::<Set>()));
        put!(out, em, "shrink_to_fit", "", { let mut s = ivs.iter().copied().collect::<Set>(); s.shrink_to_fit(); ps(em, &s) });
    }

    /// lazy chain given in postfix: >=0 a window mask, -1 union, -2 intersection, -3 complement,
    /// -4 exclusion
    pub fn chain(em: &Emb, code: &[i64], style: usize) -> Dyn<T> {
        let mut st: Vec<Dyn<T>> = vec![];
        for (k, &c) in code.iter().enumerate() {
            if c >= 0 {
                let s = mk(em, c as u64);
                let r = runs(c as u64, em.n());
                st.push(if (style + k) % 2 == 0 || r.len() > 1 { Dyn(Box::new(s.into_iter())) }
                        else { Dyn(Box::new(r.first().map(|x| TimeInterval::new(T::of(em.s[x.0]), T::of(em.e[x.1]))).unwrap_or(TimeInterval::empty()).into_iter())) });
            } else if c == -3 {
                let a = st.pop().unwrap();
                st.push(Dyn(Box::new(a.complementary())));
            } else {
                let b = st.pop().unwrap();
                let a = st.pop().unwrap();
                st.push(match c {
                    -1 => Dyn(Box::new(a.union(b))),
                    -2 => Dyn(Box::new(a.intersection(b))),
                    _ => Dyn(Box::new(a.exclusion(b))),
                });
            }
        }
        st.pop().unwrap()
    }
    pub fn lazy(em: &Emb, code: &[i64], out: &mut Out) {
        // the sources of the chain, gone through in every way too
        for &m in code.iter().filter(|c| **c >= 0) {
            let a = mk(em, m as u64);
            let e = a.convex_envelope();
            if guard(|| ways(&|| a.iter()) && ways(&|| (&a).into_iter()) && ways(&|| a.clone().into_iter()) && ways(&|| e.into_iter()) && ways(&|| e.iter())) != Ok(true) {
                put!(out, em, "source", "", format!("{{\"p\":{},\"s\":{},\"t\":0}}", jparts(&[ASTRAY]), jhints(&[(0, -1), (0, -1)])));
            }
        }
        for style in 0..2 {
            put!(out, em, "step", "", drive(em, &|| chain(em, code, style)));
        }
        // the same chain with concrete types where it is a single operation on two windows
        if code.len() == 3 && code[0] >= 0 && code[1] >= 0 {
            let (a, b) = (mk(em, code[0] as u64), mk(em, code[1] as u64));
            match code[2] {
                -1 => { put!(out, em, "it.union(&S)", "", drive(em, &|| a.iter().union(&b))); put!(out, em, "(&S).union(S)", "", drive(em, &|| (&a).into_iter().union(b.clone()))); }
                -2 => { put!(out, em, "it.inter(&S)", "", drive(em, &|| a.iter().intersection(&b))); put!(out, em, "(&S).inter(S)", "", drive(em, &|| (&a).into_iter().intersection(b.clone()))); }
                -4 => { put!(out, em, "it.excl(it)", "", drive(em, &|| a.iter().exclusion(b.iter()))); }
                _ => {}
            }
        }
        if code.len() == 2 && code[1] == -3 {
            let a = mk(em, code[0] as u64);
            put!(out, em, "it.compl", "", drive(em, &|| a.iter().complementary()));
        }
    }
    pub fn lazyjump(em: &Emb, code: &[i64], out: &mut Out) {
        put!(out, em, "jump", "", jumps(em, &|| chain(em, code, 0)));
    }
}}}

wmod!(tv, TimeValue);
wmod!(ts, Timestamp);

fn catm(a: &[i64]) -> String { jints(a) }

/// Executes one abstract transition and returns (event, side, resulting mask if uniform)
pub struct Win<'a> { pub embs: &'a [Emb], pub n: usize }

impl Win<'_> {
    fn fin(&self, head: String, out: Out, log: &mut Log) -> (String, String, bool) {
        log.forms += out.total;
        (format!("{{{},\"r\":{},\"x\":{}}}", head, out.json(), out.np()), out.forms(), out.uniform())
    }
    pub fn step(&self, op: &str, wm: u64, args: &[i64], log: &mut Log) -> Vec<(String, String, bool)> {
        journal(&format!("win {op} w={wm} args={args:?} n={}", self.n));
        let n = self.n;
        let w = jmask(wm, n);
        let a0 = args.first().copied().unwrap_or(0);
        let mut out = Out::new();
        macro_rules! both { ($em:ident, $s:ident, $md:ident, $call:expr) => {
            for $em in self.embs {
                { use tv as $md; match guard(|| $md::mk($em, wm)) { Ok($s) => { $call; } Err(e) => out.put("build", &$em.name, Err(e)) } }
                { use ts as $md; match guard(|| $md::mk($em, wm)) { Ok($s) => { $call; } Err(e) => out.put("build", &$em.name, Err(e)) } }
            } } }
        match op {
            "union" | "inter" | "excl" => {
                let k = match op { "union" => 0, "inter" => 1, _ => 2 };
                both!(em, s, md, { md::binary(em, k, &s, wm, a0 as u64, &mut out); });
                vec![self.fin(format!("\"o\":\"{op}\",\"a\":{w},\"b\":{}", jmask(a0 as u64, n)), out, log)]
            }
            "compl" => { both!(em, s, md, { md::compl(em, &s, wm, &mut out); }); vec![self.fin(format!("\"o\":\"compl\",\"a\":{w}"), out, log)] }
            "compl2" => { both!(em, s, md, { md::compl2(em, &s, wm, &mut out); }); vec![self.fin(format!("\"o\":\"compl2\",\"a\":{w}"), out, log)] }
            "tb" | "ta" => {
                both!(em, s, md, { md::trunc(em, op == "tb", &s, wm, a0 as usize, &mut out); });
                vec![self.fin(format!("\"o\":\"{op}\",\"a\":{w},\"t\":{a0}"), out, log)]
            }
            "has" | "ov" | "eq" => {
                let k = match op { "has" => 0, "ov" => 1, _ => 2 };
                both!(em, s, md, { md::relation(em, k, &s, wm, a0 as u64, &mut out); });
                vec![self.fin(format!("\"o\":\"{op}\",\"a\":{w},\"b\":{}", jmask(a0 as u64, n)), out, log)]
            }
            "ord" => {
                both!(em, s, md, { md::order(em, &s, wm, a0 as u64, &mut out); });
                vec![self.fin(format!("\"o\":\"ord\",\"a\":{w},\"b\":{}", jmask(a0 as u64, n)), out, log)]
            }
            "shape" => {
                // one event per embedding: which atoms are single ticks matters here
                let mut v = vec![];
                for em in self.embs {
                    let mut o = Out::new();
                    match guard(|| tv::mk(em, wm)) { Ok(s) => tv::shape(em, &s, wm, &mut o), Err(e) => o.put("build", &em.name, Err(e)) }
                    match guard(|| ts::mk(em, wm)) { Ok(s) => ts::shape(em, &s, wm, &mut o), Err(e) => o.put("build", &em.name, Err(e)) }
                    let u: Vec<usize> = (0..n).filter(|&i| em.is_unit(i)).collect();
                    v.push(self.fin(format!("\"o\":\"shape\",\"a\":{w},\"u\":{}", jints(&u)), o, log));
                }
                v
            }
            "lazy" => {
                for em in self.embs { tv::lazy(em, args, &mut out); ts::lazy(em, args, &mut out); }
                let mut v = vec![self.fin(format!("\"o\":\"lazy\",\"c\":{}", self.code(args)), out, log)];
                let mut o = Out::new();
                for em in self.embs { tv::lazyjump(em, args, &mut o); ts::lazyjump(em, args, &mut o); }
                v.push(self.fin(format!("\"o\":\"jump\",\"c\":{}", self.code(args)), o, log));
                v
            }
            "collect" => {
                let l: Vec<u64> = args.iter().map(|&x| x as u64).collect();
                for em in self.embs { tv::collect(em, &l, &mut out); ts::collect(em, &l, &mut out); }
                vec![self.fin(format!("\"o\":\"collect\",\"l\":[{}]", l.iter().map(|&m| jmask(m, n)).collect::<Vec<_>>().join(",")), out, log)]
            }
            k if k.starts_with("build ") => {
                let kk = &k[6..];
                for em in self.embs.iter().filter(|e| e.all_unit()) {
                    tv::build(em, kk, args[0] as usize, args[1] as usize, &mut out);
                    ts::build(em, kk, args[0] as usize, args[1] as usize, &mut out);
                }
                vec![self.fin(format!("\"o\":\"build\",\"k\":\"{kk}\",\"xy\":{}", catm(args)), out, log)]
            }
            _ => panic!("unknown op {op}"),
        }
    }
    fn code(&self, args: &[i64]) -> String {
        // operands as part lists, operators as strings
        let v: Vec<String> = args.iter().map(|&c| match c {
            -1 => "{\"k\":\"u\"}".to_string(), -2 => "{\"k\":\"i\"}".to_string(),
            -3 => "{\"k\":\"c\"}".to_string(), -4 => "{\"k\":\"x\"}".to_string(),
            m => format!("{{\"k\":\"w\",\"w\":{}}}", jmask(m as u64, self.n)) }).collect();
        format!("[{}]", v.join(","))
    }
}

/// spec -> code: execute the transitions printed by the specification
pub fn replay(lines: &[Vec<Tok>], n: usize, rng: &mut Rng, log: &mut Log) {
    let embs = embeddings(n, rng);
    let win = Win { embs: &embs, n };
    for l in lines {
        let op = l[0].s();
        let wm = l[1].i() as u64;
        let args = l[2].ints();
        let ev = win.step(op, wm, &args, log);
        for (e, s, _) in ev { log.history(&format!("\"n\":{n}"), &[e], &[s]); }
    }
}

/// as `replay`, on embeddings whose two extreme atoms hold no finite tick at all: the second atom
/// starts on the least finite tick and the last but one ends on the greatest
pub fn edge(lines: &[Vec<Tok>], n: usize, rng: &mut Rng, log: &mut Log) {
    let mut embs = vec![];
    for k in 0..3 {
        let mut st: Vec<i64> = (0..n as i64 - 1).map(|i| if i <= k { NINF + 1 + i } else { PINF - (n as i64 - 2 - i) }).collect();
        if k == 1 && n > 4 { let m = (n - 1) / 2; st[m] = rng.range(-1000, 1000); }
        st.sort();
        embs.push(Emb::from_starts(&format!("edge{k}"), &st));
    }
    let ok = |m: i64| m < 0 || ((m & 1 == 0 || m & 2 != 0) && (m >> (n - 1) & 1 == 0 || m >> (n - 2) & 1 != 0));
    let win = Win { embs: &embs, n };
    for l in lines {
        let (op, wm, args) = (l[0].s(), l[1].i(), l[2].ints());
        let cut = op == "tb" || op == "ta";
        if !ok(wm) || !args.iter().all(|&m| if cut { m >= 1 && m <= n as i64 - 2 } else { ok(m) }) { continue; }
        let ev = win.step(op, wm as u64, &args, log);
        for (e, s, _) in ev { log.history(&format!("\"n\":{n}"), &[e], &[s]); }
    }
}

/// code -> spec: random histories on one accumulated window; the real values (one per embedding
/// and type) are carried from step to step, whatever produced them
pub fn record(ops: &[&str], n: usize, hists: usize, len: usize, rng: &mut Rng, log: &mut Log) {
    for _ in 0..hists {
        let embs = embeddings(n, rng);
        TABLE.with(|t| t.borrow_mut().truncate(1));
        let mut wm = if n >= 64 { many(n, rng) } else { rng.below(1 << n) as u64 };
        let mut tvs: Vec<TimeSet<TimeValue>> = vec![];
        let mut tss: Vec<TimeSet<Timestamp>> = vec![];
        let init = guard(|| { (embs.iter().map(|e| tv::mk(e, wm)).collect::<Vec<_>>(), embs.iter().map(|e| ts::mk(e, wm)).collect::<Vec<_>>()) });
        match init { Ok((a, b)) => { tvs = a; tss = b; } Err(_) => {} }
        if tvs.is_empty() { continue; }
        // the operands as observed; drop the history when they are not what was meant
        let mut o = Out::new();
        for (k, e) in embs.iter().enumerate() { o.put("w", &e.name, guard(|| tv::obs(e, &tvs[k]))); o.put("w", &e.name, guard(|| ts::obs(e, &tss[k]))); }
        if !o.uniform() || o.vals[0].0 != jmask(wm, n) { continue; }
        let (mut evs, mut sides) = (vec![], vec![]);
        for _ in 0..len {
            let op = *rng.pick(ops);
            let rm = |rng: &mut Rng| -> u64 { if n >= 64 { return if rng.chance(1, 2) { near(wm, n, rng) } else { many(n, rng) } } match rng.below(4) {
                0 => { let a = rng.below(n as u64); let b = a + rng.below(n as u64 - a); ((1u64 << (b + 1)) - (1u64 << a)) as u64 }
                1 => 1 << rng.below(n as u64),
                _ => rng.below(1 << n) as u64 } };
            let bm = rm(rng);
            let t = rng.below(n as u64 - 1) as usize;
            let mut out = Out::new();
            let (mut ntv, mut nts) = (vec![], vec![]);
            if n < 64 { journal(&format!("win-history n={n} w={wm} {op} b={bm} t={t} evs={evs:?}")); }
            else { journal(&format!("win-history n={n} w={} {op} b={} t={t}", jmask(wm, n), jmask(bm, n))); }
            for (k, em) in embs.iter().enumerate() {
                macro_rules! go { ($md:ident, $s:expr, $nx:ident) => {{
                    let s = $s;
                    let r = match op {
                        "union" => $md::binary(em, 0, s, wm, bm, &mut out),
                        "inter" => $md::binary(em, 1, s, wm, bm, &mut out),
                        "excl" => $md::binary(em, 2, s, wm, bm, &mut out),
                        "compl" => $md::compl(em, s, wm, &mut out),
                        "tb" => $md::trunc(em, true, s, wm, t + 1, &mut out),
                        "ta" => $md::trunc(em, false, s, wm, t, &mut out),
                        "has" => { $md::relation(em, 0, s, wm, bm, &mut out); None }
                        "ov" => { $md::relation(em, 1, s, wm, bm, &mut out); None }
                        "eq" => { $md::relation(em, 2, s, wm, bm, &mut out); None }
                        "ord" => { if wm != 0 && bm != 0 { $md::order(em, s, wm, bm, &mut out); } None }
                        _ => panic!("op {op}") };
                    $nx.push(r);
                }}; }
                go!(tv, &tvs[k], ntv);
                go!(ts, &tss[k], nts);
            }
            if out.total == 0 { continue; }
            let head = match op {
                "compl" => format!("\"o\":\"compl\",\"a\":{}", jmask(wm, n)),
                "tb" => format!("\"o\":\"tb\",\"a\":{},\"t\":{}", jmask(wm, n), t + 1),
                "ta" => format!("\"o\":\"ta\",\"a\":{},\"t\":{}", jmask(wm, n), t),
                _ => format!("\"o\":\"{op}\",\"a\":{},\"b\":{}", jmask(wm, n), jmask(bm, n)),
            };
            log.forms += out.total;
            evs.push(format!("{{{},\"r\":{},\"x\":{}}}", head, out.json(), out.np()));
            sides.push(out.forms());
            if !out.uniform() { break; }
            if matches!(op, "union" | "inter" | "excl" | "compl" | "tb" | "ta") {
                if ntv.iter().any(|x| x.is_none()) || nts.iter().any(|x| x.is_none()) { break; }
                tvs = ntv.into_iter().map(|x| x.unwrap()).collect();
                tss = nts.into_iter().map(|x| x.unwrap()).collect();
                // new abstract state as observed
                let p = match guard(|| proj(&embs[0], tvs[0].iter())) { Ok(p) => p, Err(_) => break };
                if p.iter().any(|x| x.0 >= n as i64 || x.1 >= n as i64 || x.0 > x.1) { break; }
                let mut v = vec![false; n];
                for x in &p { for i in x.0..=x.1 { v[i as usize] = true } }
                let m = mask(v);
                if jmask(m, n) != jparts(&p) { break; }
                wm = m;
            }
        }
        log.history(&format!("\"n\":{n}"), &evs, &sides);
    }
}

pub fn random_chain(n: usize, depth: usize, rng: &mut Rng, code: &mut Vec<i64>) {
    if depth == 0 || rng.chance(1, 6) {
        if n >= 64 { code.push(many(n, rng) as i64); return; }
        let m = match rng.below(4) { 0 => 0, 1 => (1u64 << n) - 1, _ => rng.below(1 << n) } as i64;
        code.push(if rng.chance(1, 3) { rng.below(1 << n) as i64 } else { m });
        return;
    }
    match rng.below(4) {
        0 => { random_chain(n, depth - 1, rng, code); code.push(-3); }
        k => { random_chain(n, depth - 1, rng, code); random_chain(n, depth - 1, rng, code); code.push([-1, -2, -4][k as usize - 1]); }
    }
}
