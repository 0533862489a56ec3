//! Numeric windows: parts are pairs of integers relative to a base tick (dates, or durations),
//! OO / -OO standing for the infinities.  Translation, scaling, derived builders, lazy chains.
use crate::util::*;
use crate::win::{jhints, num, ways, wide, Dyn, Tk, ASTRAY, NINF, PINF};
use chronologic::iter::*;
use chronologic::*;
use std::ops::Sub;

pub const OO: i64 = 1_000_000;
const JUNK: i64 = 999_999;
pub type AP = Vec<(i64, i64)>;

pub fn rel(t: i64, base: i64) -> i64 {
    if wide() { return t; }
    if t == PINF { return OO; }
    if t == NINF { return -OO; }
    let d = t as i128 - base as i128;
    if d.abs() <= 900_000 { d as i64 } else { JUNK }
}
pub fn abst(x: i64, base: i64) -> i64 { if wide() { x } else if x == OO { PINF } else if x == -OO { NINF } else { base + x } }
pub fn jp(p: &[(i64, i64)]) -> String { crate::win::jparts(p) }

fn pj<T: Tk>(it: impl Iterator<Item = TimeInterval<T>>, base: i64) -> AP {
    it.take(2000).map(|p| (rel(p.lower_bound().tk(), base), rel(p.upper_bound().tk(), base))).collect()
}
fn ps<T: Tk>(s: &TimeSet<T>, base: i64) -> String {
    let p = pj(s.iter(), base);
    if s.is_empty() != p.is_empty() || s.convex_count() != p.len() { return jp(&[(JUNK, JUNK - 1)]); }
    jp(&p)
}
fn pi<T: Tk>(i: TimeInterval<T>, base: i64) -> String {
    if i.is_empty() { "[]".into() } else { jp(&[(rel(i.lower_bound().tk(), base), rel(i.upper_bound().tk(), base))]) }
}
fn iv<T: Tk>(a: &AP, base: i64) -> Option<TimeInterval<T>> {
    match a.len() { 0 => Some(TimeInterval::empty()), 1 => Some(TimeInterval::new(T::of(abst(a[0].0, base)), T::of(abst(a[0].1, base)))), _ => None }
}
fn pt(a: &AP, base: i64) -> Option<i64> { if a.len() == 1 && a[0].0 == a[0].1 { Some(abst(a[0].0, base)) } else { None } }
fn mk<T: Tk>(a: &AP, base: i64) -> TimeSet<T> {
    a.iter().map(|p| TimeInterval::new(T::of(abst(p.0, base)), T::of(abst(p.1, base)))).collect()
}
/// scaled by m instead of shifted
fn mkm(a: &AP, m: i64) -> TimeSpans {
    let f = |x: i64| TimeValue::from_ticks(if wide() { x } else if x == OO { PINF } else if x == -OO { NINF } else { x * m });
    a.iter().map(|p| TimeInterval::new(f(p.0), f(p.1))).collect()
}
fn pm(it: impl Iterator<Item = TimeSpan>, m: i64) -> String {
    let f = |t: TimeValue| { let t = t.as_ticks(); if wide() { t } else if t == PINF { OO } else if t == NINF { -OO } else if t % m != 0 || (t / m).abs() > 900_000 { JUNK } else { t / m } };
    jp(&it.take(2000).map(|p| (f(p.lower_bound()), f(p.upper_bound()))).collect::<Vec<_>>())
}

/// steps a lazy iterator: parts, hints before each step, answers after the end
fn drive<T: Tk, I: Iterator<Item = TimeInterval<T>>>(base: i64, mk: &dyn Fn() -> I) -> String {
    let mut it = mk();
    let (mut parts, mut hints) = (vec![], vec![]);
    loop {
        let (a, b) = it.size_hint();
        hints.push((a.min(1000) as i64, b.map(|x| x.min(1000) as i64).unwrap_or(-1)));
        if parts.len() > 400 { break; }
        match it.next() { None => break, Some(p) => parts.push((rel(p.lower_bound().tk(), base), rel(p.upper_bound().tk(), base))) }
    }
    let mut tail = 0;
    for _ in 0..3 { if it.next().is_some() { tail += 1; } if it.size_hint().0 > 0 { tail += 10; } }
    if parts.len() <= 400 && !ways(mk) { parts.push(ASTRAY) }
    format!("{{\"p\":{},\"s\":{},\"t\":{}}}", jp(&parts), jhints(&hints), tail)
}

macro_rules! put { ($out:expr, $a:expr, $emb:expr, $body:expr) => { { let r = guard(|| $body); $out.put($a, $emb, r); } } }

macro_rules! smod { ($m:ident, $T:ty) => { pub mod $m {
    use super::*;
    type T = $T;
    /// what both kinds of time point share; a (dates or durations) at base ba, b durations at bb
    pub fn sum(a: &AP, ba: i64, b: &AP, bb: i64, e: &str, out: &mut Out) {
        let z = ba + bb;
        put!(out, "S+S", e, ps(&(mk::<T>(a, ba) + mk::<TimeValue>(b, bb)), z));
        put!(out, "S+=S", e, { let mut x = mk::<T>(a, ba); x += mk::<TimeValue>(b, bb); ps(&x, z) });
        if let Some(v) = iv::<TimeValue>(b, bb) {
            put!(out, "S+iv", e, ps(&(mk::<T>(a, ba) + v), z));
            put!(out, "S+=iv", e, { let mut x = mk::<T>(a, ba); x += v; ps(&x, z) });
            put!(out, "it.transl(&iv)", e, jp(&pj(mk::<T>(a, ba).iter().translation(&v), z)));
            put!(out, "into.transl(&iv)", e, jp(&pj(mk::<T>(a, ba).into_iter().translation(&v), z)));
        }
        if let Some(t) = pt(b, bb).map(TimeValue::of) {
            put!(out, "S+t", e, ps(&(mk::<T>(a, ba) + t), z));
            put!(out, "S+=t", e, { let mut x = mk::<T>(a, ba); x += t; ps(&x, z) });
            put!(out, "it.transl(t)", e, jp(&pj(mk::<T>(a, ba).iter().translation(t), z)));
            put!(out, "into.transl(t)", e, jp(&pj(mk::<T>(a, ba).into_iter().translation(t), z)));
        }
        if let Some(u) = iv::<T>(a, ba) {
            if let Some(v) = iv::<TimeValue>(b, bb) {
                put!(out, "iv+iv", e, pi(u + v, z));
                put!(out, "iv+=iv", e, { let mut x = u; x += v; pi(x, z) });
                put!(out, "iv.it.transl(&iv)", e, jp(&pj(u.iter().translation(&v), z)));
            }
            if let Some(t) = pt(b, bb).map(TimeValue::of) {
                put!(out, "iv+t", e, pi(u + t, z));
                put!(out, "t+iv", e, pi(t + u, z));
                put!(out, "iv+=t", e, { let mut x = u; x += t; pi(x, z) });
                put!(out, "iv.it.transl(t)", e, jp(&pj(u.iter().translation(t), z)));
            }
        }
    }
    pub fn diff(a: &AP, ba: i64, b: &AP, bb: i64, e: &str, out: &mut Out) {
        let z = ba - bb;
        put!(out, "S-S", e, ps(&(mk::<T>(a, ba) - mk::<TimeValue>(b, bb)), z));
        put!(out, "S-=S", e, { let mut x = mk::<T>(a, ba); x -= mk::<TimeValue>(b, bb); ps(&x, z) });
        put!(out, "S+(-S)", e, ps(&(mk::<T>(a, ba) + (-mk::<TimeValue>(b, bb))), z));
        if let Some(v) = iv::<TimeValue>(b, bb) {
            put!(out, "S-iv", e, ps(&(mk::<T>(a, ba) - v), z));
            put!(out, "S-=iv", e, { let mut x = mk::<T>(a, ba); x -= v; ps(&x, z) });
            put!(out, "it.transl(&-iv)", e, jp(&pj(mk::<T>(a, ba).iter().translation(&-v), z)));
        }
        if let Some(t) = pt(b, bb).map(TimeValue::of) {
            put!(out, "S-t", e, ps(&(mk::<T>(a, ba) - t), z));
            put!(out, "S-=t", e, { let mut x = mk::<T>(a, ba); x -= t; ps(&x, z) });
            put!(out, "it.transl(-t)", e, jp(&pj(mk::<T>(a, ba).iter().translation(-t), z)));
        }
        if let Some(u) = iv::<T>(a, ba) {
            if let Some(v) = iv::<TimeValue>(b, bb) {
                put!(out, "iv-iv", e, pi(Sub::<TimeSpan>::sub(u, v), z));
                put!(out, "iv-=iv", e, { let mut x = u; x -= v; pi(x, z) });
            }
            if let Some(t) = pt(b, bb).map(TimeValue::of) {
                put!(out, "iv-t", e, pi(u - t, z));
                put!(out, "iv-=t", e, { let mut x = u; x -= t; pi(x, z) });
            }
        }
        // a duration minus a window of T
        if let (Some(t), Some(v)) = (pt(a, ba).map(TimeValue::of), iv::<T>(b, bb)) {
            put!(out, "t-iv", e, pi(t - v, z));
        }
    }
    pub fn centre(c: i64, base: i64, r: i64, e: &str, out: &mut Out) {
        put!(out, "centered", e, TimeInterval::<T>::centered(T::of(abst(c, base)), TimeValue::from_ticks(r)).map(|i| pi(i, base)).unwrap_or("[]".into()));
    }
    pub fn grow(a: &AP, base: i64, r: i64, e: &str, out: &mut Out) {
        if let Some(u) = iv::<T>(a, base) {
            put!(out, "enlarge", e, u.enlarge(TimeValue::from_ticks(r)).map(|i| pi(i, base)).unwrap_or("[]".into()));
        }
    }
    pub fn neg(a: &AP, base: i64, e: &str, out: &mut Out) {
        put!(out, "-S", e, ps(&-mk::<T>(a, base), -base));
        put!(out, "---S", e, ps(&- - -mk::<T>(a, base), -base));
        if let Some(u) = iv::<T>(a, base) { put!(out, "-iv", e, pi(-u, -base)); put!(out, "S(-iv)", e, ps(&TimeSet::from(-u), -base)); }
    }
}}}
smod!(tv, TimeValue);
smod!(ts, Timestamp);

/// the forms only dates have
pub fn sum_dates(a: &AP, ba: i64, b: &AP, bb: i64, e: &str, out: &mut Out) {
    let z = ba + bb;
    if let Some(d) = pt(a, ba).map(Timestamp::of) {
        put!(out, "d+S", e, ps(&(d + mk::<TimeValue>(b, bb)), z));
        put!(out, "S+d", e, ps(&(mk::<TimeValue>(b, bb) + d), z));
        if let Some(v) = iv::<TimeValue>(b, bb) {
            put!(out, "d+iv", e, pi(d + v, z));
            put!(out, "iv+d", e, pi(v + d, z));
        }
        if let Some(t) = pt(b, bb).map(TimeValue::of) { put!(out, "d+t", e, pi(TimeSlot::from(d + t), z)); }
    }
}
pub fn diff_dates(a: &AP, ba: i64, b: &AP, bb: i64, e: &str, out: &mut Out) {
    let z = ba - bb;
    if let Some(d) = pt(a, ba).map(Timestamp::of) {
        // date minus durations
        put!(out, "d-S", e, ps(&(d - mk::<TimeValue>(b, bb)), z));
        if let Some(v) = iv::<TimeValue>(b, bb) { put!(out, "d-iv", e, pi(d - v, z)); }
        // date minus dates
        if let Some(v) = iv::<Timestamp>(b, bb) { put!(out, "d-slot", e, pi(d - v, z)); }
    }
    if let Some(d) = pt(b, bb).map(Timestamp::of) {
        // durations minus a date
        put!(out, "S-d", e, ps(&(mk::<TimeValue>(a, ba) - d), z));
        if let Some(v) = iv::<TimeValue>(a, ba) { put!(out, "iv-d", e, pi(v - d, z)); }
        if let Some(v) = iv::<Timestamp>(a, ba) { put!(out, "slot-d", e, pi(v - d, z)); }
    }
    if let (Some(u), Some(v)) = (iv::<Timestamp>(a, ba), iv::<Timestamp>(b, bb)) { put!(out, "slot-slot", e, pi(u - v, z)); }
}

pub fn len(a: &AP, ba: i64, e: &str, out: &mut Out) {
    if let Some(u) = iv::<Timestamp>(a, ba) { put!(out, "duration", e, num(rel(u.duration().as_ticks(), 0))); }
}

const M: i64 = 1 << 40;

pub fn scale_int(mul: bool, a: &AP, k: i64, real: Option<&TimeSpans>, out: &mut Out) {
    macro_rules! one { ($K:ty, $km:expr) => { if let Ok(kk) = <$K>::try_from(k) { if mul {
        for (m, e) in [(1, "x1"), (M, "xM")] { if m != 1 && (k == 0 || wide()) { continue; }
            let s = mkm(a, m);
            let n = stringify!($K);
            put!(out, &format!("S*{n}"), e, pm((s.clone() * kk).iter(), m));
            put!(out, &format!("S*={n}"), e, { let mut x = s.clone(); x *= kk; pm(x.iter(), m) });
            put!(out, &format!("{n}*S"), e, pm((kk * s.clone()).iter(), m));
            put!(out, &format!("it.scaling({n})"), e, pm(s.iter().scaling(kk), m));
            if a.len() <= 1 {
                let u = s.iter().next().unwrap_or(TimeSpan::empty());
                put!(out, &format!("iv*{n}"), e, pm((u * kk).iter(), m));
                put!(out, &format!("iv*={n}"), e, { let mut x = u; x *= kk; pm(x.iter(), m) });
                put!(out, &format!("{n}*iv"), e, pm((kk * u).iter(), m));
            }
        } }
        else {
            for m in [1i64, 4096, M] {
                if m != 1 && wide() { continue; }
                let Ok(kk) = <$K>::try_from(k as i128 * m as i128) else { continue };
                let e = if m == 1 { "x1" } else if m == M { "xM" } else { "x4096" };
                let s = mkm(a, m);
                let n = stringify!($K);
                put!(out, &format!("S/{n}"), e, ps(&(s.clone() / kk), 0));
                put!(out, &format!("S/={n}"), e, { let mut x = s.clone(); x /= kk; ps(&x, 0) });
                if a.len() <= 1 {
                    let u = s.iter().next().unwrap_or(TimeSpan::empty());
                    put!(out, &format!("iv/{n}"), e, pi(u / kk, 0));
                    put!(out, &format!("iv/={n}"), e, { let mut x = u; x /= kk; pi(x, 0) });
                }
            }
        } } } }
    one!(i8, 0); one!(u8, 0); one!(i16, 0); one!(u16, 0); one!(i32, 0); one!(u32, 0); one!(i64, 0);
    one!(u64, 0); one!(i128, 0); one!(u128, 0); one!(isize, 0); one!(usize, 0);
    if let Some(s) = real {
        if mul { put!(out, "real*i64", "x1", ps(&(s.clone() * k), 0)); } else { put!(out, "real/i32", "x1", ps(&(s.clone() / k as i32), 0)); }
    }
}
fn scale_float(mul: bool, a: &AP, p: i64, q: i64, out: &mut Out) { scale_floats(mul, a, p, q, true, true, out) }
/// an integer factor as a float, where every operand and every result is exact
pub fn scale_exact(mul: bool, a: &AP, k: i64, out: &mut Out) {
    let fits = |x: i128, b: u32| x == 0 || 128 - x.unsigned_abs().leading_zeros() - x.trailing_zeros() <= b;
    let fin = |x: i64| x.unsigned_abs() < i64::MAX as u64;
    let ok = |b: u32| fits(k as i128, b) && a.iter().flat_map(|p| [p.0, p.1]).filter(|&x| fin(x)).all(|x| {
        let (x, k) = (x as i128, k as i128);
        fits(x, b) && if mul { fits(x * k, b) } else { x % k == 0 && fits(x / k, b) || x.abs() < 1 << b && k.abs() < 1 << b }
    });
    scale_floats(mul, a, k, 1, ok(24), ok(53), out);
}
fn scale_floats(mul: bool, a: &AP, p: i64, q: i64, single: bool, double: bool, out: &mut Out) {
    let s = mkm(a, 1);
    macro_rules! one { ($K:ty) => { (|out: &mut Out| {
        let f = p as $K / q as $K;
        let n = stringify!($K);
        macro_rules! forms { ($nm:expr, $op:tt, $oa:tt, $f:expr) => {{
            put!(out, &format!("S{}{n}", $nm), "x1", ps(&(s.clone() $op $f), 0));
            put!(out, &format!("S{}={n}", $nm), "x1", { let mut x = s.clone(); x $oa $f; ps(&x, 0) });
            if a.len() <= 1 {
                let u = s.iter().next().unwrap_or(TimeSpan::empty());
                put!(out, &format!("iv{}{n}", $nm), "x1", pi(u $op $f, 0));
                put!(out, &format!("iv{}={n}", $nm), "x1", { let mut x = u; x $oa $f; pi(x, 0) });
            } }} }
        if !mul { forms!("/", /, /=, f); return; }
        forms!("*", *, *=, f);
        put!(out, &format!("{n}*S"), "x1", ps(&(f * s.clone()), 0));
        put!(out, &format!("it.scaling({n})"), "x1", jp(&pj(s.iter().scaling(f), 0)));
        if p != 0 && (p.abs() as u64).is_power_of_two() { let d = q as $K / p as $K; forms!("/", /, /=, d); }
    })(out) } }
    if single { one!(f32); }
    if double { one!(f64); }
}

/// lazy chains
#[derive(Clone, Debug)]
pub enum C { W(AP), U, I, X, N, T(i64), TS(AP), S(i64),
    /// the standard adaptors that keep a chain a window: take, skip, every k-th, take / skip while it starts before, keep what is long, and two that change nothing
    H(i64), D(i64), E(i64), Tw(i64), Sw(i64), Fl(i64), Pk, In }
fn jcode(c: &[C]) -> String {
    format!("[{}]", c.iter().map(|c| match c {
        C::W(a) => format!("{{\"k\":\"w\",\"w\":{}}}", jp(a)),
        C::U => "{\"k\":\"u\"}".into(), C::I => "{\"k\":\"i\"}".into(), C::X => "{\"k\":\"x\"}".into(), C::N => "{\"k\":\"c\"}".into(),
        C::T(t) => format!("{{\"k\":\"t\",\"v\":{}}}", num(*t)),
        C::TS(a) => format!("{{\"k\":\"m\",\"w\":{}}}", jp(a)),
        C::S(k) => format!("{{\"k\":\"s\",\"v\":{}}}", num(*k)),
        C::H(k) => format!("{{\"k\":\"h\",\"v\":{k}}}"), C::D(k) => format!("{{\"k\":\"d\",\"v\":{k}}}"),
        C::E(k) => format!("{{\"k\":\"e\",\"v\":{k}}}"), C::Tw(k) => format!("{{\"k\":\"tw\",\"v\":{k}}}"),
        C::Sw(k) => format!("{{\"k\":\"sw\",\"v\":{k}}}"), C::Fl(k) => format!("{{\"k\":\"fl\",\"v\":{k}}}"),
        C::Pk => "{\"k\":\"pk\"}".into(), C::In => "{\"k\":\"in\"}".into(),
    }).collect::<Vec<_>>().join(","))
}
fn cv<I: TimeConvexIterator>(i: I) -> I { i }
macro_rules! chain_fn { ($name:ident, $T:ty, $scal:expr) => {
    fn $name(c: &[C], base: i64) -> Dyn<$T> {
        let mut st: Vec<Dyn<$T>> = vec![];
        for x in c {
            match x {
                C::W(a) => { let s = mk::<$T>(a, base); st.push(Dyn(Box::new(s.into_iter()))); continue; }
                _ => {}
            }
            let b = st.pop().unwrap();
            let r: Dyn<$T> = match x {
                C::N => Dyn(Box::new(b.complementary())),
                C::T(t) => Dyn(Box::new(b.translation(TimeValue::from_ticks(*t)))),
                C::TS(a) => { let v = iv::<TimeValue>(a, 0).unwrap(); Dyn(Box::new(b.translation(&v))) }
                C::S(k) => $scal(b, *k),
                C::H(k) => Dyn(Box::new(cv(b.take(*k as usize)))),
                C::D(k) => Dyn(Box::new(cv(b.skip(*k as usize)))),
                C::E(k) => Dyn(Box::new(cv(b.step_by(*k as usize)))),
                C::Tw(k) => { let k = <$T>::of(base + *k); Dyn(Box::new(cv(b.take_while(move |p| p.lower_bound() < k)))) }
                C::Sw(k) => { let k = <$T>::of(base + *k); Dyn(Box::new(cv(b.skip_while(move |p| p.lower_bound() < k)))) }
                C::Fl(k) => { let k = *k; Dyn(Box::new(cv(b.filter(move |p| !p.is_bounded() || p.upper_bound().tk() as i128 - p.lower_bound().tk() as i128 >= k as i128)))) }
                C::Pk => { let mut b = b.peekable(); let _ = b.peek(); Dyn(Box::new(cv(b))) }
                C::In => Dyn(Box::new(cv(b.inspect(|p| assert!(!p.is_empty()))))),
                _ => {
                    let a = st.pop().unwrap();
                    match x { C::U => Dyn(Box::new(a.union(b))), C::I => Dyn(Box::new(a.intersection(b))), _ => Dyn(Box::new(a.exclusion(b))) }
                }
            };
            st.push(r);
        }
        st.pop().unwrap()
    } } }
chain_fn!(chain_tv, TimeValue, |b: Dyn<TimeValue>, k: i64| -> Dyn<TimeValue> { if k % 2 == 0 { Dyn(Box::new(b.scaling(k))) } else { Dyn(Box::new(b.scaling(k as i16))) } });
chain_fn!(chain_ts, Timestamp, |_b: Dyn<Timestamp>, _k: i64| -> Dyn<Timestamp> { panic!("no scaling of dates") });

pub const FAR: i64 = 1_700_000_000i64 << 30;
pub const EDGE: i64 = i64::MAX - 4_000_000;
const BASES: [(i64, i64, &str); 6] = [(0, 0, "0"), (FAR, 0, "now"), (EDGE, 0, "max"), (-EDGE, 0, "min"), (EDGE, -(1 << 61), "max,-2^61"), (-EDGE, 1 << 61, "min,2^61")];

pub fn parts(t: &Tok) -> AP { t.l().iter().map(|p| { let v = p.ints(); (v[0], v[1]) }).collect() }

/// one abstract operation through every form; returns the carried window's new value
fn step(op: &str, a: &AP, b: &AP, k: i64, q: i64, real: Option<&TimeSpans>, log: &mut Log) -> (String, String, bool, Option<TimeSpans>) {
    journal(&format!("span {op} a={} b={} k={k} q={q}", jp(a), jp(b)));
    let mut out = Out::new();
    let mut res = None;
    match op {
        "sum" => {
            for (ba, bb, e) in BASES { tv::sum(a, ba, b, bb, e, &mut out); ts::sum(a, ba, b, bb, e, &mut out); sum_dates(a, ba, b, bb, e, &mut out); }
            if let Some(s) = real { res = guard(|| s.clone() + mk::<TimeValue>(b, 0)).ok(); put!(out, "real+S", "0", ps(&(s.clone() + mk::<TimeValue>(b, 0)), 0)); }
        }
        "diff" => {
            for (ba, bb, e) in BASES { let bb = -bb; tv::diff(a, ba, b, bb, e, &mut out); ts::diff(a, ba, b, bb, e, &mut out); diff_dates(a, ba, b, bb, e, &mut out); }
            for (ba, bb, e) in [(FAR, FAR + 77, "now,now"), (EDGE, EDGE - 1000, "max,max"), (-EDGE, 500 - EDGE, "min,min")] { tv::diff(a, ba, b, bb, e, &mut out); ts::diff(a, ba, b, bb, e, &mut out); diff_dates(a, ba, b, bb, e, &mut out); }
            if let Some(s) = real { res = guard(|| s.clone() - mk::<TimeValue>(b, 0)).ok(); put!(out, "real-S", "0", ps(&(s.clone() - mk::<TimeValue>(b, 0)), 0)); }
        }
        "neg" => {
            for (ba, _, e) in BASES { tv::neg(a, ba, e, &mut out); ts::neg(a, ba, e, &mut out); }
            if let Some(s) = real { res = guard(|| -s.clone()).ok(); put!(out, "-real", "0", ps(&-s.clone(), 0)); }
        }
        "mul" => {
            scale_int(true, a, k, real, &mut out);
            if let Some(s) = real { res = guard(|| s.clone() * k).ok(); }
        }
        "div" => {
            scale_int(false, a, k, real, &mut out);
            if let Some(s) = real { res = guard(|| s.clone() / k).ok(); }
        }
        "mulq" => scale_float(true, a, k, q, &mut out),
        "divq" => scale_float(false, a, k, q, &mut out),
        "around" => for (ba, _, e) in BASES { tv::centre(k, ba, q, e, &mut out); ts::centre(k, ba, q, e, &mut out); },
        "grow" => for (ba, _, e) in BASES { tv::grow(a, ba, k, e, &mut out); ts::grow(a, ba, k, e, &mut out); },
        "len" => for (ba, _, e) in BASES { len(a, ba, e, &mut out); },
        _ => panic!("unknown op {op}"),
    }
    log.forms += out.total;
    let ev = format!("{{\"o\":\"{op}\",\"a\":{},\"b\":{},\"k\":{k},\"q\":{q},\"r\":{},\"x\":{}}}", jp(a), jp(b), out.json(), out.np());
    (ev, out.forms(), out.uniform(), res)
}

pub fn chain_event(c: &[C], log: &mut Log) -> (String, String) {
    journal(&format!("span chain {c:?}"));
    let mut out = Out::new();
    put!(out, "tv", "0", drive(0, &|| chain_tv(c, 0)));
    if !c.iter().any(|x| matches!(x, C::S(_))) {
        for base in if wide() { vec![0] } else { vec![0, FAR, EDGE, -EDGE] } {
            put!(out, "tv", "base", drive(base, &|| chain_tv(c, base)));
            put!(out, "ts", "base", drive(base, &|| chain_ts(c, base)));
        }
    }
    log.forms += out.total;
    (format!("{{\"o\":\"chain\",\"c\":{},\"r\":{},\"x\":{}}}", jcode(c), out.json(), out.np()), out.forms())
}

pub fn replay(lines: &[Vec<Tok>], keep: u64, rng: &mut Rng, log: &mut Log) {
    for l in lines {
        if keep > 1 && !rng.chance(1, keep) { continue; }
        let (op, a, b, k, q) = (l[0].s(), parts(&l[1]), parts(&l[2]), l[3].i(), l[4].i());
        if op == "chain" { continue; }
        let (e, s, _, _) = step(op, &a, &b, k, q, None, log);
        log.history("", &[e], &[s]);
    }
}

pub fn random_window(rng: &mut Rng, mag: i64, maxparts: u64) -> AP {
    let n = rng.below(maxparts + 1);
    if n == 0 { return if rng.chance(1, 3) { vec![(-OO, OO)] } else { vec![] }; }
    let mut pts = std::collections::BTreeSet::new();
    let near = rng.range(-mag, mag);
    while pts.len() < 2 * n as usize {
        pts.insert(if rng.chance(1, 2) { rng.range(-mag, mag) } else { (near + rng.range(-3 * n as i64, 3 * n as i64)).clamp(-mag - 50, mag + 50) });
    }
    let v: Vec<i64> = pts.into_iter().collect();
    let mut p: AP = vec![];
    for i in 0..n as usize {
        let (lo, hi) = (v[2 * i], if rng.chance(1, 3) { v[2 * i] } else { v[2 * i + 1] });
        match p.last_mut() { Some(l) if l.1 + 1 >= lo => l.1 = hi, _ => p.push((lo, hi)) }
    }
    if rng.chance(1, 5) { p[0].0 = -OO; }
    if rng.chance(1, 5) { p.last_mut().unwrap().1 = OO; }
    p
}
fn canon(p: &AP) -> bool {
    p.iter().all(|x| x.0 <= x.1 && x.0.abs() != JUNK && x.1.abs() != JUNK && x.0 < OO && x.1 > -OO) && p.windows(2).all(|w| w[0].1 + 1 < w[1].0)
}

pub fn record(ops: &[&str], hists: usize, len: usize, parts: usize, rng: &mut Rng, log: &mut Log) {
    for _ in 0..hists {
        // parts > 0: a window of so many parts
        let mag = if parts > 0 { 20 * parts as i64 } else { *rng.pick(&[4, 12, 60, 2000]) };
        let many = rng.chance(1, 6);
        let mut a = if parts > 0 { many_parts(rng, parts) } else { random_window(rng, mag, if many && mag >= 60 { 20 } else { 4 }) };
        if parts > 0 && ops.contains(&"sum") && rng.chance(1, 3) {
            // the window of many parts on the right, often of a single date
            let c = if rng.chance(2, 3) { let x = rng.range(-9, 9); vec![(x, x)] } else { random_window(rng, 6, 2) };
            let (e, s, _, _) = step(if rng.chance(1, 3) { "sum" } else { "diff" }, &c, &a, 0, 1, None, log);
            log.history("", &[e], &[s]);
            continue;
        }
        let Ok(mut real) = guard(|| mk::<TimeValue>(&a, 0)) else { continue };
        if guard(|| ps(&real, 0)) != Ok(jp(&a)) { continue; }
        let (mut evs, mut sides) = (vec![], vec![]);
        for _ in 0..len {
            let op = *rng.pick(ops);
            let b = if parts > 0 { random_window(rng, 6, 2) } else { random_window(rng, mag, if many && mag >= 60 { 6 } else { 3 }) };
            let top = a.iter().flat_map(|p| [p.0, p.1]).filter(|x| x.abs() < OO).map(|x| x.abs()).max().unwrap_or(0).max(1);
            let (mut k, mut q) = (0, 1);
            match op {
                "mul" => { k = rng.range(-12, 12); if rng.chance(1, 6) { k = *rng.pick(&[127, -128, 255, 300, -40000]) } if top * k.abs() > 400_000 { continue; } }
                "div" => { while k == 0 { k = if rng.chance(1, 4) { rng.range(-200, 200) } else { rng.range(-5, 5) } } }
                "mulq" => { k = rng.range(-9, 9); q = *rng.pick(&[1, 2, 4, 8]); if rng.chance(1, 3) { k = rng.range(-1, 1); }
                    if top * k.abs() > 400_000 || !a.iter().all(|p| [p.0, p.1].iter().all(|x| x.abs() == OO || x * k % q == 0)) { continue; } }
                "divq" => { k = *rng.pick(&[3, 5, 7, 9, 10, 49, 1000, 1, 2, -3, -10, -49, -1]); q = *rng.pick(&[1, 1, 2, 4]);
                    if top * q > 400_000 || !a.iter().all(|p| [p.0, p.1].iter().all(|x| x.abs() == OO || x * q % k == 0)) { continue; } }
                "around" => { k = rng.range(-mag, mag); q = rng.range(-2, mag); }
                "grow" => { k = rng.range(-mag, mag); }
                _ => {}
            }
            if top > 400_000 { break; }
            let (e, s, uni, res) = step(op, &a, if matches!(op, "sum" | "diff") { &b } else { &a }, k, q, Some(&real), log);
            evs.push(e);
            sides.push(s);
            if !uni { break; }
            if matches!(op, "sum" | "diff" | "neg" | "mul" | "div") {
                let Some(r) = res else { break };
                let Ok(p) = guard(|| pj(r.iter(), 0)) else { break };
                if !canon(&p) { break; }
                a = p;
                real = r;
                if a.len() > 40 && parts == 0 { break; }
            }
        }
        log.history("", &evs, &sides);
    }
}

/// nearly so many parts, with gaps of a few ticks
fn many_parts(rng: &mut Rng, parts: usize) -> AP {
    let mut x = -(rng.below(10 * parts as u64) as i64);
    let mut p: AP = vec![];
    for _ in 0..parts {
        let y = x + *rng.pick(&[0, 0, 1, 3]);
        p.push((x, y));
        x = y + *rng.pick(&[2, 3, 9, 30]);
    }
    if rng.chance(1, 4) { p[0].0 = -OO }
    if rng.chance(1, 4) { p[parts - 1].1 = OO }
    p
}

pub fn chains(n: usize, rng: &mut Rng, log: &mut Log) {
    fn gen(d: usize, mag: i64, top: &mut i64, rng: &mut Rng, c: &mut Vec<C>) {
        if d == 0 || rng.chance(1, 7) { let m = if mag >= 40 && rng.chance(1, 4) { 16 } else { 4 }; c.push(C::W(random_window(rng, mag, m))); return; }
        if rng.chance(1, 4) {
            gen(d - 1, mag, top, rng, c);
            c.push(match rng.below(8) { 0 => C::H(rng.range(0, 4)), 1 => C::D(rng.range(0, 3)), 2 => C::E(rng.range(1, 3)), 3 => C::Tw(rng.range(-mag, mag)),
                4 => C::Sw(rng.range(-mag, mag)), 5 => C::Fl(rng.range(0, 4)), 6 => C::Pk, _ => C::In });
            return;
        }
        match rng.below(9) {
            0 => { gen(d - 1, mag, top, rng, c); c.push(C::N); }
            1 | 2 => { gen(d - 1, mag, top, rng, c); c.push(C::T(rng.range(-mag, mag))); }
            3 => { gen(d - 1, mag, top, rng, c);
                   let mut w = random_window(rng, mag, 1); if w.is_empty() { w = vec![(0, rng.range(0, 3))]; } c.push(C::TS(w)); }
            4 | 5 => { gen(d - 1, mag, top, rng, c); let k = rng.range(-4, 4);
                   *top *= 4; c.push(if *top * mag < 100_000 { C::S(k) } else { C::N }); }
            k => { gen(d - 1, mag, top, rng, c); gen(d - 1, mag, top, rng, c); c.push(match k { 6 => C::U, 7 => C::I, _ => C::X }); }
        }
    }
    for _ in 0..n {
        let mag = *rng.pick(&[3, 8, 40]);
        let mut c = vec![];
        let d = 1 + rng.below(4) as usize;
        gen(d, mag, &mut 1, rng, &mut c);
        let (e, s) = chain_event(&c, log);
        log.history("", &[e], &[s]);
    }
}
