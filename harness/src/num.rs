//! Single time values at any magnitude: arithmetic, scaling, rounding, unit and calendar
//! conversions, periodic sequences.  Numbers travel as wide integers [sign, limbs base 2^15].
use crate::util::*;
use crate::win::ways_by;
use chrono::{DateTime, FixedOffset, NaiveDateTime, TimeZone, Utc};
use chronologic::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

pub const MAX: i64 = i64::MAX;

/// sign and magnitude
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Big { pub neg: bool, pub mag: u128 }
impl Big {
    pub fn of(x: i128) -> Big { Big { neg: x < 0, mag: x.unsigned_abs() } }
    pub fn js(self) -> String {
        let (mut m, mut l) = (self.mag, vec![]);
        while m > 0 { l.push((m & 0x7fff) as u32); m >>= 15; }
        format!("[{},{}]", if self.mag == 0 { 0 } else if self.neg { -1 } else { 1 }, jints(&l))
    }
    pub fn i128(self) -> Option<i128> {
        if self.neg { if self.mag <= 1 << 127 { Some((self.mag as i128).wrapping_neg()) } else { None } } else { i128::try_from(self.mag).ok() }
    }
    pub fn i64(self) -> Option<i64> { self.i128().and_then(|x| i64::try_from(x).ok()) }
    pub fn tok(t: &Tok) -> Big {
        let v = t.l();
        let mut m = 0u128;
        for x in v[1].l().iter().rev() { m = (m << 15) | x.i() as u128; }
        Big { neg: v[0].i() < 0, mag: m }
    }
}
pub fn wj(x: i64) -> String { Big::of(x as i128).js() }
pub fn wv(x: TimeValue) -> String { wj(x.as_ticks()) }
pub fn wt(x: Timestamp) -> String { wj(x.since_origin().as_ticks()) }
fn v(x: i64) -> TimeValue { TimeValue::from_ticks(x) }
fn t(x: i64) -> Timestamp { Timestamp::from_origin(v(x)) }
fn hash<H: Hash>(h: &H) -> u64 { let mut s = DefaultHasher::new(); h.hash(&mut s); s.finish() }
fn fin(x: i64) -> bool { x != MAX && x != -MAX }

macro_rules! put { ($o:expr, $n:expr, $e:expr) => {{ let r = guard(|| $e); $o.put($n, "", r); }}; }

/// the body for every integer type able to hold $n
macro_rules! each_int {
    ($n:expr, |$ty:ident, $x:ident, $name:ident| $body:block) => {{
        let b: Big = $n;
        macro_rules! one { ($T:ident) => {{
            let c: Option<$T> = match b.i128() { Some(z) => <$T>::try_from(z).ok(), None => if b.neg { None } else { <$T>::try_from(b.mag).ok() } };
            if let Some($x) = c { #[allow(dead_code)] type $ty = $T; let $name = stringify!($T); $body }
        }}; }
        one!(i8); one!(u8); one!(i16); one!(u16); one!(i32); one!(u32); one!(i64); one!(u64); one!(i128); one!(u128); one!(isize); one!(usize);
    }};
}

pub const UNITS: [&str; 11] = ["years", "months", "weeks", "days", "hours", "mins", "secs", "millis", "micros", "nanos", "ticks"];
fn by_unit<I: IntoTimeValue>(u: &str, x: I) -> TimeValue {
    match u {
        "years" => x.years(), "months" => x.months(), "weeks" => x.weeks(), "days" => x.days(), "hours" => x.hours(), "mins" => x.mins(),
        "secs" => x.secs(), "millis" => x.millis(), "micros" => x.micros(), "nanos" => x.nanos(), "ticks" => x.ticks(), _ => panic!("unit {u}"),
    }
}
fn from_unit(u: &str, x: i64) -> TimeValue {
    match u {
        "years" => TimeValue::from_years(x), "months" => TimeValue::from_months(x), "weeks" => TimeValue::from_weeks(x), "days" => TimeValue::from_days(x),
        "hours" => TimeValue::from_hours(x), "mins" => TimeValue::from_mins(x), "secs" => TimeValue::from_secs(x), "millis" => TimeValue::from_millis(x),
        "micros" => TimeValue::from_micros(x), "nanos" => TimeValue::from_nanos(x), "ticks" => TimeValue::from_ticks(x), _ => panic!("unit {u}"),
    }
}
/// ticks in one unit, as the specification defines them
fn unit_ticks(u: &str) -> i64 {
    let s = 1i64 << 30;
    match u { "years" => 31556952 * s, "months" => 2629746 * s, "weeks" => 604800 * s, "days" => 86400 * s, "hours" => 3600 * s, "mins" => 60 * s,
        "secs" => s, "millis" => 1073741, "micros" => 1073, _ => 1 }
}

fn tf(l: &[bool]) -> String { jints(&l.iter().map(|&b| b as u8).collect::<Vec<_>>()) }

/// one operation on one value; gives the event head, the outcomes, and the next value when it is one
pub fn step(op: &str, a: i64, args: &[Tok]) -> Option<(String, Out, Option<i64>)> {
    let mut o = Out::new();
    let big = |i: usize| Big::tok(&args[i]);
    let head;
    journal(&format!("num {op} a={a} args={args:?}"));
    match op {
        "add" => {
            let b = big(0).i64()?;
            head = format!("\"b\":{}", wj(b));
            put!(o, "v+v", wv(v(a) + v(b)));
            put!(o, "v+=v", { let mut x = v(a); x += v(b); wv(x) });
            put!(o, "t+v", wt(t(a) + v(b)));
            put!(o, "t+=v", { let mut x = t(a); x += v(b); wt(x) });
            put!(o, "v+t", wt(v(a) + t(b)));
            put!(o, "v-(-v)", wv(v(a) - (-v(b))));
        }
        "sub" => {
            let b = big(0).i64()?;
            head = format!("\"b\":{}", wj(b));
            put!(o, "v-v", wv(v(a) - v(b)));
            put!(o, "v-=v", { let mut x = v(a); x -= v(b); wv(x) });
            put!(o, "t-v", wt(t(a) - v(b)));
            put!(o, "t-=v", { let mut x = t(a); x -= v(b); wt(x) });
            put!(o, "t-t", wv(t(a) - t(b)));
            put!(o, "v-t", wt(v(a) - t(b)));
        }
        "sum" => {
            let l: Vec<i64> = args[0].l().iter().map(|x| Big::tok(x).i64().unwrap()).collect();
            head = format!("\"l\":[{}]", l.iter().map(|&x| wj(x)).collect::<Vec<_>>().join(","));
            put!(o, "sum", wv(l.iter().map(|&x| v(x)).sum::<TimeValue>()));
        }
        "neg" => {
            head = String::new();
            put!(o, "-v", wv(-v(a)));
            put!(o, "-t", wt(-t(a)));
        }
        "after" => { head = String::new(); put!(o, "v", wv(v(a).just_after())); put!(o, "t", wt(t(a).just_after())); }
        "before" => { head = String::new(); put!(o, "v", wv(v(a).just_before())); put!(o, "t", wt(t(a).just_before())); }
        "ticks" => { head = String::new(); put!(o, "from_ticks", wv(TimeValue::from_ticks(a)));
            if a != i64::MIN { put!(o, "unchecked", wv(unsafe { TimeValue::from_ticks_unchecked(a) })); } }
        "class" => {
            head = String::new();
            let (x, y) = (v(a), t(a));
            put!(o, "v", tf(&[x.is_finite(), x.is_future_infinite(), x.is_past_infinite(), x.is_zero(), x.is_positive(), x.is_negative(), x.is_strictly_positive(), x.is_strictly_negative()]));
            put!(o, "t", tf(&[y.is_finite(), y.is_future_infinite(), y.is_past_infinite(), x.is_zero(), x.is_positive(), x.is_negative(), x.is_strictly_positive(), x.is_strictly_negative()]));
            put!(o, "bounds", tf(&[x.is_bounded() && x.is_low_bounded() && y.is_up_bounded() && y.is_bounded() && y.is_low_bounded() && x.is_up_bounded(),
                x == TimeValue::INFINITE, y == -Timestamp::INFINITE, x == TimeValue::default(), x >= TimeValue::default(), !(x > TimeValue::default()), y > Timestamp::default(), y < Timestamp::default()]));
        }
        "cmp" => {
            let b = big(0).i64()?;
            head = format!("\"b\":{}", wj(b));
            macro_rules! cmps { ($n:expr, $x:expr, $y:expr) => { put!(o, $n, { let (x, y) = ($x, $y);
                let c = x.cmp(&y) as i32;
                let p = x.partial_cmp(&y).map(|z| z as i32).unwrap_or(9);
                let lt = [x < y, x <= y, x > y, x >= y, x == y, hash(&x) == hash(&y) || x != y, x.max(y) == if c < 0 { y } else { x }];
                format!("[{c},{p},{}]", lt.iter().map(|&z| (z as u8).to_string()).collect::<Vec<_>>().join(",")) }); }; }
            cmps!("v", v(a), v(b));
            cmps!("t", t(a), t(b));
        }
        "mul" => {
            let n = big(0);
            head = format!("\"b\":{}", n.js());
            each_int!(n, |T, x, nm| {
                put!(o, &format!("v*{nm}"), wv(v(a) * x));
                put!(o, &format!("{nm}*v"), wv(x * v(a)));
                put!(o, &format!("v*={nm}"), { let mut y = v(a); y *= x; wv(y) });
            });
            if n.mag != 0 { each_int!(Big { neg: !n.neg, mag: n.mag }, |T, x, nm| { put!(o, &format!("-v*-{nm}"), wv(-v(a) * x)); }); }
        }
        "div" => {
            let n = big(0);
            if n.mag == 0 { return None; }
            head = format!("\"b\":{}", n.js());
            each_int!(n, |T, x, nm| {
                put!(o, &format!("v/{nm}"), wv(v(a) / x));
                put!(o, &format!("v/={nm}"), { let mut y = v(a); y /= x; wv(y) });
            });
        }
        // by the float num/den (den a power of two): only where the float product is exact or far out of range
        "mulf" | "divf" => {
            let (n, d) = (big(0).i128()?, big(1).i128()?);
            let div = op == "divf";
            if d <= 0 || d & (d - 1) != 0 || (div && n == 0) || n.unsigned_abs() >= 1 << 60 || d >= 1 << 60 { return None; }
            head = format!("\"b\":{},\"d\":{}", big(0).js(), big(1).js());
            let bits = |x: i128| -> u32 { if x == 0 { 0 } else { 128 - x.unsigned_abs().leading_zeros() - x.trailing_zeros() } };
            let (up, dn) = if div { (a as i128 * d, n) } else { (a as i128 * n, d) };
            let over = up.unsigned_abs() >> 63 >= dn.unsigned_abs();
            let exact = |p: u32| bits(n) <= p && (!fin(a) || bits(a as i128) <= p && (over || up % dn == 0 && bits(up / dn) <= p));
            macro_rules! float { ($T:ident) => {{
                let x = (n as $T) / (d as $T);
                let nm = stringify!($T);
                if div {
                    put!(o, &format!("v/{nm}"), wv(v(a) / x));
                    put!(o, &format!("v/={nm}"), { let mut y = v(a); y /= x; wv(y) });
                    put!(o, &format!("-v/-{nm}"), wv(-v(a) / -x));
                } else {
                    put!(o, &format!("v*{nm}"), wv(v(a) * x));
                    put!(o, &format!("{nm}*v"), wv(x * v(a)));
                    put!(o, &format!("v*={nm}"), { let mut y = v(a); y *= x; wv(y) });
                    put!(o, &format!("-v*-{nm}"), wv(-v(a) * -x));
                }
            }}; }
            if exact(53) { float!(f64); }
            if exact(24) { float!(f32); }
            if o.total == 0 { return None; }
        }
        "floor" | "ceil" => {
            let p = big(0).i64()?;
            if p <= 0 || !fin(p) || !fin(a) { return None; }
            let w = (a as i128).div_euclid(p as i128);
            let up = op == "ceil";
            // only when the multiple is a finite time value
            let m = if up && w * p as i128 != a as i128 { (w + 1) * p as i128 } else { w * p as i128 };
            if m.abs() >= MAX as i128 { return None; }
            head = format!("\"b\":{},\"w\":{}", wj(p), Big::of(w).js());
            if up { put!(o, "v", wv(v(a).ceil(v(p)))); put!(o, "t", wt(t(a).ceil(v(p)))); }
            else { put!(o, "v", wv(v(a).floor(v(p)))); put!(o, "t", wt(t(a).floor(v(p)))); }
        }
        "unit" => {
            let (u, n) = (args[0].s(), big(1));
            head = format!("\"k\":\"{u}\",\"b\":{}", n.js());
            each_int!(n, |T, x, nm| { put!(o, &format!("{nm}.{u}()"), wv(by_unit(u, x))); });
            if let Some(x) = n.i64() { put!(o, &format!("from_{u}"), wv(from_unit(u, x))); }
        }
        "trunc" => {
            let u = args[0].s();
            if !fin(a) { return None; }
            head = format!("\"k\":\"{u}\",\"w\":{}", wj(a / unit_ticks(u)));
            put!(o, &format!("v.{u}()"), wv(by_unit(u, v(a))));
        }
        "read" => {
            if !fin(a) { return None; }
            head = String::new();
            put!(o, "v", { let x = v(a); format!("[{},{},{},{}]", wj(x.as_secs()), wj(x.subsec_millis() as i64), wj(x.subsec_micros() as i64), wj(x.subsec_nanos() as i64)) });
        }
        // to the outside: nanoseconds
        "chrono" => {
            if !fin(a) { return None; }
            head = String::new();
            let ns = |d: chrono::Duration| -> String { Big::of(d.num_seconds() as i128 * 1_000_000_000 + d.subsec_nanos() as i128).js() };
            put!(o, "into", ns(v(a).into()));
            put!(o, "to_duration", ns(v(a).to_duration()));
        }
        "std" => {
            if !fin(a) || a < 0 { return None; }
            head = String::new();
            put!(o, "into", { let d: std::time::Duration = v(a).into(); Big::of(d.as_nanos() as i128).js() });
        }
        "date" => {
            if !fin(a) { return None; }
            head = String::new();
            put!(o, "naive", { let d: NaiveDateTime = t(a).into(); let d = d.and_utc(); Big::of(d.timestamp() as i128 * 1_000_000_000 + d.timestamp_subsec_nanos() as i128).js() });
            put!(o, "to_datetime", { let d = t(a).to_datetime(); Big::of(d.timestamp() as i128 * 1_000_000_000 + d.timestamp_subsec_nanos() as i128).js() });
        }
        // there and back
        "loop" => {
            if !fin(a) { return None; }
            head = String::new();
            put!(o, "chrono", wv(TimeValue::from(v(a).to_duration())));
            if a >= 0 { put!(o, "std", wv(TimeValue::from(std::time::Duration::from(v(a))))); }
            put!(o, "naive", wt(Timestamp::from(NaiveDateTime::from(t(a)))));
            put!(o, "utc", wt(Timestamp::from(t(a).to_datetime())));
            put!(o, "offset", wt(Timestamp::from(t(a).to_datetime().with_timezone(&FixedOffset::east_opt(3600 * 5 + 1800).unwrap()))));
        }
        // order is kept: images of a and b, both ways
        "mono" => {
            let b = big(0).i64()?;
            if !fin(a) || !fin(b) { return None; }
            head = format!("\"b\":{}", wj(b));
            put!(o, "chrono", (v(a).to_duration().cmp(&v(b).to_duration()) as i32).to_string());
            put!(o, "naive", (NaiveDateTime::from(t(a)).cmp(&NaiveDateTime::from(t(b))) as i32).to_string());
            put!(o, "utc", (t(a).to_datetime().cmp(&t(b).to_datetime()) as i32).to_string());
            if a >= 0 && b >= 0 { put!(o, "std", (std::time::Duration::from(v(a)).cmp(&std::time::Duration::from(v(b))) as i32).to_string()); }
        }
        // from the outside: args are seconds and nanoseconds (0..10^9)
        "fromout" => {
            let (s, n) = (big(0).i64()?, big(1).i64()?);
            if !(0..1_000_000_000).contains(&n) { return None; }
            let tot = s as i128 * 1_000_000_000 + n as i128;
            head = format!("\"b\":{}", Big::of(tot).js());
            // chrono durations span i64 milliseconds
            if (s as i128 * 1000).abs() + 2000 < i64::MAX as i128 {
                put!(o, "chrono", wv(TimeValue::from(chrono::Duration::try_seconds(s).unwrap() + chrono::Duration::nanoseconds(n))));
            }
            if s >= 0 { put!(o, "std", wv(TimeValue::from(std::time::Duration::new(s as u64, n as u32)))); }
            // dates whose number of nanoseconds fits
            if i64::try_from(tot).is_ok() {
                if let Some(d) = DateTime::<Utc>::from_timestamp(s, n as u32) {
                    put!(o, "naive", wt(Timestamp::from(d.naive_utc())));
                    put!(o, "utc", wt(Timestamp::from(d)));
                    let off = FixedOffset::west_opt(3600 * 9 + 60).unwrap();
                    put!(o, "offset", wt(Timestamp::from(off.from_utc_datetime(&d.naive_utc()))));
                }
            }
            if o.total == 0 { return None; }
        }
        "monoout" => {
            // two external durations a few nanoseconds apart
            let (s, n, d) = (big(0).i64()?, big(1).i64()?, big(2).i64()?);
            if !(0..1_000_000_000).contains(&n) || d < 0 || !(0..9_000_000_000).contains(&s.abs()) { return None; }
            head = format!("\"b\":{}", wj(d));
            let c = |z: std::cmp::Ordering| (z as i32).to_string();
            let x = chrono::Duration::try_seconds(s).unwrap() + chrono::Duration::nanoseconds(n);
            let y = x + chrono::Duration::nanoseconds(d);
            put!(o, "chrono", c(TimeValue::from(x).cmp(&TimeValue::from(y))));
            if s >= 0 { let x = std::time::Duration::new(s as u64, n as u32); put!(o, "std", c(TimeValue::from(x).cmp(&TimeValue::from(x + std::time::Duration::from_nanos(d as u64))))); }
            let e = Utc.timestamp_opt(s, n as u32).unwrap();
            put!(o, "utc", c(Timestamp::from(e).cmp(&Timestamp::from(e + chrono::Duration::nanoseconds(d)))));
        }
        // the clock of the machine, in ticks, read before and after (a second more on each side, clocks get adjusted)
        "now" => {
            let clock = || { let n = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_nanos(); ((n << 30) / 1_000_000_000) as i128 };
            let lo = clock() - (1 << 30);
            put!(o, "now", wt(Timestamp::now()));
            let e = guard(|| t(a).elapsed());
            let hi = clock() + (1 << 30);
            head = format!("\"lo\":{},\"hi\":{},\"el\":{}", Big::of(lo).js(), Big::of(hi).js(), match e { Ok(x) => format!("[{}]", wv(x)), Err(_) => "[]".into() });
        }
        _ => panic!("op {op}"),
    }
    // the next value when the outcomes agree on one number
    let mut next = None;
    if matches!(op, "add" | "sub" | "neg" | "after" | "before" | "mul" | "div" | "mulf" | "divf" | "floor" | "ceil" | "trunc" | "loop") && o.uniform() {
        next = parse_wide(&o.vals[0].0);
    }
    Some((head, o, next))
}
fn parse_wide(s: &str) -> Option<i64> {
    let n: Vec<i64> = s.split(|c: char| c != '-' && !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
    let mut m = 0i128;
    for x in n[1..].iter().rev() { m = (m << 15) | *x as i128; }
    i64::try_from(n[0] as i128 * m).ok()
}
fn event(op: &str, a: i64, head: &str, o: &Out) -> String {
    let c = if head.is_empty() { "" } else { "," };
    format!("{{\"o\":\"{op}\",\"a\":{}{c}{head},\"r\":{},\"x\":{},\"n\":{}}}", wj(a), o.json(), o.np(), o.total)
}

pub fn replay(lines: &[Vec<Tok>], keep: u64, rng: &mut Rng, log: &mut Log) {
    for l in lines {
        if keep > 1 && rng.below(keep) != 0 { continue; }
        let op = l[0].s();
        if op == "seq" { let b: Vec<i64> = l[1..4].iter().map(|x| Big::tok(x).i64().unwrap()).collect(); seq_history(b[0], b[1], l[4].s(), rng, log); continue; }
        let a = Big::tok(&l[1]).i64().unwrap();
        if let Some((h, o, _)) = step(op, a, l[2].l()) {
            log.forms += o.total;
            log.history("\"k\":\"value\"", &[event(op, a, &h, &o)], &[o.forms()]);
        }
    }
}

pub fn rnd(rng: &mut Rng) -> i64 {
    let base: i64 = match rng.below(9) {
        0 => rng.range(-5, 5),
        1 => { let k = rng.below(63); 1i64 << k }
        2 => rng.range(-MAX, MAX),
        3 => MAX - rng.below(4) as i64,
        4 => { let k = rng.below(63); rng.range(-(1 << k), 1 << k) }
        5 => unit_ticks(UNITS[rng.below(11) as usize]).saturating_mul(rng.range(-300, 300)),
        6 => { let k = rng.below(40) as u32; (1i64 << 30).saturating_mul(1i64 << k.min(33)).saturating_add(rng.range(-3, 3)) }
        7 => (rng.range(-9_000_000_000, 9_000_000_000) as i128 * 1_000_000_000 >> 30).clamp(-(MAX as i128), MAX as i128) as i64,
        _ => MAX / (2 + rng.below(5) as i64) + rng.range(-2, 2),
    };
    let x = if rng.chance(1, 2) { base.saturating_neg() } else { base };
    x.saturating_add(rng.range(-2, 2)).max(-MAX)
}
fn tokw(b: Big) -> Tok {
    let (mut m, mut l) = (b.mag, vec![]);
    while m > 0 { l.push(Tok::I((m & 0x7fff) as i64)); m >>= 15; }
    Tok::L(vec![Tok::I(if b.mag == 0 { 0 } else if b.neg { -1 } else { 1 }), Tok::L(l)])
}
fn toki(x: i64) -> Tok { tokw(Big::of(x as i128)) }

pub fn record(ops: &[&str], hists: usize, len: usize, rng: &mut Rng, log: &mut Log) {
    for _ in 0..hists {
        let mut a = rnd(rng);
        let (mut evs, mut sides) = (vec![], vec![]);
        for _ in 0..len {
            let op = *rng.pick(ops);
            // now and then an operand which makes the result fall next to a limit
            let near = |rng: &mut Rng, a: i64| -> i64 { match rng.below(4) { 0 => (MAX as i128 - a as i128 + rng.range(-2, 2) as i128).clamp(-(MAX as i128), MAX as i128) as i64,
                1 => (-(MAX as i128) - a as i128 + rng.range(-2, 2) as i128).clamp(-(MAX as i128), MAX as i128) as i64, 2 => (-a).saturating_add(rng.range(-2, 2)).max(-MAX), _ => rnd(rng) } };
            let args: Vec<Tok> = match op {
                "add" => vec![toki(near(rng, a))],
                "sub" => { let x = near(rng, a); vec![toki(if rng.chance(2, 3) { -x } else { x })] }
                "cmp" | "mono" => vec![toki(if rng.chance(1, 2) { a.saturating_add(rng.range(-3, 3)).clamp(-MAX, MAX) } else { rnd(rng) })],
                "sum" => vec![Tok::L((0..rng.below(6)).map(|_| toki(rnd(rng))).collect())],
                "mul" | "div" => {
                    let n = match rng.below(5) { 0 => Big::of(rng.range(-300, 300) as i128), 1 => Big::of(rnd(rng) as i128), 2 => Big { neg: rng.chance(1, 2), mag: (rng.next() as u128) << rng.below(63) },
                        // near the factor which saturates, and its neighbours
                        3 => Big::of(if a == 0 { 1 } else { MAX as i128 / a as i128 + rng.range(-1, 1) as i128 }),
                        _ => Big { neg: rng.chance(1, 2), mag: 1u128 << rng.below(127) } };
                    vec![tokw(n)]
                }
                "mulf" | "divf" => {
                    let d = 1i128 << match rng.below(3) { 0 => 0, 1 => rng.below(8), _ => rng.below(40) };
                    let n = match rng.below(4) { 0 => rng.range(-9, 9) as i128, 1 => 1i128 << rng.below(59), 2 => rng.range(-(1 << 20), 1 << 20) as i128,
                        // next to the factor which saturates
                        _ => if a == 0 { 3 } else { let z = (1i128 << 63) * d / a as i128 + rng.range(-1, 1) as i128; if z.unsigned_abs() >> 59 > 0 { 5 } else { z } } };
                    // the value rounded to what a float holds
                    if evs.is_empty() { let z = 64 - a.unsigned_abs().leading_zeros() as i64; if z > 24 { let k = z - rng.range(1, 24); a = (a >> k << k).max(-MAX); } }
                    vec![tokw(Big::of(if rng.chance(1, 2) { n } else { -n })), tokw(Big::of(d))]
                }
                "floor" | "ceil" => vec![toki(match rng.below(3) { 0 => 1 + rng.below(1000) as i64, 1 => unit_ticks(UNITS[rng.below(11) as usize]), _ => rnd(rng).abs() })],
                "unit" => { let u = *rng.pick(&UNITS); let k = unit_ticks(u);
                    let n = match rng.below(4) { 0 => Big::of(rng.range(-2000, 2000) as i128), 1 => Big::of(rnd(rng) as i128), 2 => Big::of(((MAX / k) as i128 + rng.range(-2, 2) as i128) * if rng.chance(1, 2) { -1 } else { 1 }),
                        _ => Big { neg: rng.chance(1, 2), mag: (rng.next() as u128) << rng.below(63) } };
                    vec![Tok::S(u.into()), tokw(n)] }
                "trunc" => vec![Tok::S(rng.pick(&UNITS).to_string())],
                "fromout" => vec![toki(match rng.below(4) { 0 => rng.range(-5, 5), 1 => rng.range(-9_300_000_000, 9_300_000_000), 2 => (1i64 << 33) * if rng.chance(1, 2) { -1 } else { 1 } + rng.range(-2, 2), _ => rnd(rng) }),
                    toki(match rng.below(3) { 0 => rng.below(1_000_000_000) as i64, 1 => 999_999_999 - rng.below(3) as i64, _ => rng.below(3) as i64 })],
                "monoout" => vec![toki(if rng.chance(1, 2) { rng.range(-5, 5) } else { rng.range(-8_500_000_000, 8_500_000_000) }), toki(rng.below(1_000_000_000) as i64), toki(rng.below(4) as i64)],
                _ => vec![],
            };
            if let Some((h, o, nx)) = step(op, a, &args) {
                log.forms += o.total;
                evs.push(event(op, a, &h, &o));
                sides.push(o.forms());
                let solo = matches!(op, "sum" | "unit" | "fromout" | "monoout" | "cmp" | "class" | "read" | "chrono" | "std" | "date" | "loop" | "mono" | "ticks" | "now");
                if !solo { if let Some(x) = nx { a = x; } else if !o.uniform() { break; } }
            }
            if rng.chance(1, 4) || !fin(a) && rng.chance(1, 2) { break; }
        }
        log.history("\"k\":\"value\"", &evs, &sides);
    }
}

/// the life of one periodic sequence; kind: fwd, bwd, fwdp, bwdp (aligned on the period)
pub fn seq_history(start: i64, period: i64, kind: &str, rng: &mut Rng, log: &mut Log) {
    if !fin(start) || !fin(period) || period <= 0 { return; }
    let al = kind.ends_with('p');
    let w = (start as i128).div_euclid(period as i128);
    let c = if w * period as i128 == start as i128 { w } else { w + 1 } * period as i128;
    if al && c.abs() >= MAX as i128 { return; }
    let head = format!("\"k\":\"seq\",\"t\":{},\"p\":{},\"d\":{},\"al\":{},\"w\":{}", wj(start), wj(period), if kind.starts_with('f') { 1 } else { -1 }, al as i32, Big::of(w).js());
    // own account of the next date, for the choice of jumps and the witness of the last date
    let step = if kind.starts_with('f') { period as i128 } else { -(period as i128) };
    let mut cur = if al { c } else { start as i128 };
    let left = |cur: i128| -> i128 { if cur.abs() >= MAX as i128 { 0 } else if step > 0 { (MAX as i128 - 1 - cur) / step + 1 } else { (cur + MAX as i128 - 1) / -step + 1 } };
    macro_rules! drive { ($mk:expr) => {{
        let (mut evs, mut sides) = (vec![], vec![]);
        journal(&format!("sequence {kind} from {start} period {period}"));
        match guard(|| $mk) {
            Err(m) => { evs.push("{\"o\":\"start\",\"r\":[],\"x\":1,\"n\":1}".to_string()); sides.push(jstr(&m)); }
            Ok(mut s) => {
                evs.push("{\"o\":\"start\",\"r\":[],\"x\":0,\"n\":1}".to_string()); sides.push("0".into());
                let one = |x: Option<Timestamp>| x.map(|z| format!("[{}]", wt(z))).unwrap_or("[]".into());
                let steps = 3 + rng.below(12);
                for _ in 0..steps {
                    let mut o = Out::new();
                    let h;
                    let rem = left(cur) as usize;
                    match rng.below(8) {
                        0 | 1 | 2 => { h = "\"o\":\"next\"".to_string(); put!(o, "next", one(s.next())); if rem > 0 { cur += step; } }
                        3 => { let k = match rng.below(5) { 0 => 0, 1 => rng.below(5) as usize, 2 => rem.saturating_sub(1 + rng.below(3) as usize), 3 => (rng.below(2) as usize).saturating_add(rem), _ => (rng.next() as usize) % rem.max(1) };
                            journal(&format!("sequence {kind} from {start} period {period}: {evs:?} nth({k})"));
                            h = format!("\"o\":\"nth\",\"b\":{}", Big::of(k as i128).js()); put!(o, "nth", one(s.nth(k))); if rem > 0 { cur = if k >= rem { i128::MAX / 4 } else { cur + step * (k as i128 + 1) }; } }
                        4 => { h = "\"o\":\"hint\"".to_string(); put!(o, "hint", { let (a, b) = s.size_hint(); format!("[{},{}]", Big::of(a as i128).js(), b.map(|x| Big::of(x as i128).js()).unwrap_or("[]".into())) }); }
                        5 => { h = "\"o\":\"count\"".to_string(); put!(o, "count", { let c = s; Big::of(c.count() as i128).js() }); }
                        6 => { h = format!("\"o\":\"last\",\"q\":{}", Big::of(left(cur) - 1).js()); put!(o, "last", { let c = s; one(c.last()) }); }
                        _ => { h = "\"o\":\"look\"".to_string();
                            // the whole rest in other ways (fold, any, find...): the same date twice, never right, if one disagrees
                            if rem <= 300 { put!(o, "ways", if ways_by(&|| s, &|t: &Timestamp| t.since_origin().as_ticks()) { let v: Vec<_> = s.take(2).collect(); format!("[{},{}]", one(v.first().copied()), one(v.get(1).copied())) } else { let z = one(Some(Timestamp::default())); format!("[{z},{z}]") }); }
                            put!(o, "clone.next", { let mut c = s; let a = one(c.next()); let b = one(c.next()); format!("[{a},{b}]") }); put!(o, "take", { let v: Vec<_> = s.take(2).collect(); format!("[{},{}]", one(v.first().copied()), one(v.get(1).copied())) }); }
                    }
                    log.forms += o.total;
                    evs.push(format!("{{{h},\"r\":{},\"x\":{},\"n\":{}}}", o.json(), o.np(), o.total));
                    sides.push(o.forms());
                    if !o.uniform() { break; }
                }
            }
        }
        log.history(&head, &evs, &sides);
    }}; }
    match kind {
        "fwd" => drive!(t(start).forward_sequence(v(period))),
        "bwd" => drive!(t(start).backward_sequence(v(period))),
        "fwdp" => drive!(t(start).forward_periods(v(period))),
        _ => drive!(t(start).backward_periods(v(period))),
    }
}
pub fn seqs(hists: usize, rng: &mut Rng, log: &mut Log) {
    for _ in 0..hists {
        let p = match rng.below(4) { 0 => 1 + rng.below(10) as i64, 1 => unit_ticks(UNITS[rng.below(11) as usize]), _ => rnd(rng).abs().max(1) };
        let k = *rng.pick(&["fwd", "bwd", "fwdp", "bwdp"]);
        let s = match rng.below(4) { 0 => rng.range(-20, 20), 1 => rnd(rng),
            // a few periods from the end
            2 => (MAX as i128 - p as i128 * rng.below(6) as i128 - rng.range(-1, 3) as i128).clamp(-(MAX as i128), MAX as i128) as i64,
            _ => (-(MAX as i128) + p as i128 * rng.below(6) as i128 + rng.range(-1, 3) as i128).clamp(-(MAX as i128), MAX as i128) as i64 };
        seq_history(s, p, k, rng, log);
    }
}
