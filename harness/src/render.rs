//! Texts of windows, time values, networks and agendas, cut into tokens without loss, and
//! stored copies read back.
use crate::graph::{Scale, SCALES};
use crate::num::Big;
use crate::util::*;
use crate::win::Tk;
use chronologic::graph::*;
use chronologic::*;
use std::fmt::{Debug, Display};

type W = Vec<(i64, i64)>;
const MAX: i64 = i64::MAX;

fn wj(x: i64) -> String { Big::of(x as i128).js() }
fn jw(w: &W) -> String { format!("[{}]", w.iter().map(|p| format!("[{},{}]", wj(p.0), wj(p.1))).collect::<Vec<_>>().join(",")) }
fn tok(s: &str, n: i128) -> String { format!("[{},{}]", jstr(s), Big::of(n).js()) }

const UNITS: [&str; 9] = ["y", "mo", "d", "h", "min", "s", "ms", "us", "ns"];
/// nothing but blanks is dropped
pub fn lex(t: &str) -> String {
    let b: Vec<char> = t.chars().collect();
    let mut v: Vec<String> = vec![];
    let mut p = 0;
    let digits = |mut p: usize| { let s = p; while p < b.len() && b[p].is_ascii_digit() { p += 1 } (b[s..p].iter().collect::<String>(), p) };
    let at = |p: usize, s: &str| b[p..].iter().take(s.len()).collect::<String>() == s;
    const BEFORE: &str = "before 1970-01-01 00:00:00 UTC";
    while p < b.len() {
        let c = b[p];
        if c == ' ' { p += 1; continue }
        if at(p, BEFORE) { v.push(tok("before", 0)); p += BEFORE.len(); continue }
        if at(p, "+oo") || at(p, "-oo") { v.push(tok(if c == '+' { "+oo" } else { "-oo" }, 0)); p += 3; continue }
        if at(p, "t=") { v.push(tok("t=", 0)); p += 2; continue }
        if at(p, "->") { v.push(tok("->", 0)); p += 2; continue }
        if c == 't' && p + 1 < b.len() && b[p + 1].is_ascii_digit() { let (d, e) = digits(p + 1); v.push(tok("T", d.parse().unwrap_or(-1))); p = e; continue }
        // a calendar date
        if c.is_ascii_digit() {
            if let Some(u) = (p..b.len().min(p + 60)).find(|&k| at(k, " UTC")) {
                let s: String = b[p..u].iter().collect();
                if let Ok(d) = chrono::NaiveDateTime::parse_from_str(&s, "%Y-%m-%d %H:%M:%S%.f") {
                    v.push(tok("date", d.and_utc().timestamp() as i128 * 1_000_000_000 + d.and_utc().timestamp_subsec_nanos() as i128));
                    p = u + 4;
                    continue;
                }
            }
        }
        let neg = c == '-' && p + 1 < b.len() && b[p + 1].is_ascii_digit();
        if neg || c.is_ascii_digit() {
            let (d, e) = digits(if neg { p + 1 } else { p });
            let n: i128 = match d.parse::<i128>() { Ok(n) => if neg { -n } else { n }, _ => { v.push(tok(&format!("odd {d}"), 0)); p = e; continue } };
            if e < b.len() && b[e] == '_' {
                let (f, z) = digits(e + 1);
                if f.len() == 9 { v.push(tok("stamp", n * 1_000_000_000 + f.parse::<i128>().unwrap())); p = z; continue }
            }
            let w: String = b[e..].iter().take_while(|x| x.is_ascii_lowercase()).collect();
            if w.is_empty() { v.push(tok("num", n)); p = e }
            else if UNITS.contains(&w.as_str()) { v.push(tok(&w, n)); p = e + w.len() }
            else { v.push(tok(&format!("odd {w}"), n)); p = e + w.len() }
            continue;
        }
        if c.is_ascii_lowercase() {
            let w: String = b[p..].iter().take_while(|x| x.is_ascii_lowercase()).collect();
            v.push(tok(&w, 0));
            p += w.len();
            continue;
        }
        match c {
            '{' | '}' | '[' | ']' | ',' | 'U' | '-' | ';' | '(' | ')' | '=' => v.push(tok(&c.to_string(), 0)),
            c => v.push(tok(&format!("odd {c}"), 0)),
        }
        p += 1;
    }
    format!("[{}]", v.join(","))
}
fn lex_rows(t: &str) -> String {
    let mut r: Vec<&str> = t.split('\n').collect();
    if r.last() == Some(&"") { r.pop(); } else { r.push("unfinished line") }
    format!("[{}]", r.iter().map(|x| lex(x)).collect::<Vec<_>>().join(","))
}

struct Ev { ev: Vec<String>, sd: Vec<String>, texts: String }
impl Ev {
    fn new() -> Ev { Ev { ev: vec![], sd: vec![], texts: String::new() } }
    fn add(&mut self, head: String, o: Out, log: &mut Log) {
        log.forms += o.total;
        self.ev.push(format!("{{{head},\"r\":{},\"x\":{}}}", o.json(), o.np()));
        self.sd.push(format!("{{\"texts\":{},\"forms\":{}}}", jstr(&self.texts), o.forms()));
        self.texts.clear();
    }
}
/// puts the tokens of a text, keeping the text itself aside
macro_rules! say { ($v:expr, $o:expr, $n:expr, $e:expr) => {{ let r = guard(|| $e.to_string()); if let Ok(s) = &r { $v.texts += s; $v.texts += " | "; } $o.put($n, "", r.map(|s| lex(&s))); }}; }
macro_rules! say_rows { ($v:expr, $o:expr, $n:expr, $e:expr) => {{ let r = guard(|| $e.to_string()); if let Ok(s) = &r { $v.texts += s; $v.texts += " | "; } $o.put($n, "", r.map(|s| lex_rows(&s))); }}; }

const FMT: &str = "%s_%f";
#[cfg(feature = "serde")]
pub trait Kind: Tk + Debug + Display + TimePointFormat + serde::Serialize + serde::de::DeserializeOwned { const K: &'static str; }
#[cfg(not(feature = "serde"))]
pub trait Kind: Tk + Debug + Display + TimePointFormat { const K: &'static str; }
impl Kind for TimeValue { const K: &'static str = "v"; }
impl Kind for Timestamp { const K: &'static str = "t"; }

fn iv<T: Kind>(p: (i64, i64)) -> TimeInterval<T> { TimeInterval::from(T::of(p.0)..=T::of(p.1)) }
fn set<T: Kind>(w: &W) -> TimeSet<T> { w.iter().map(|p| iv::<T>(*p)).collect() }

fn window<T: Kind>(w: &W, v: &mut Ev, log: &mut Log) {
    let s = set::<T>(w);
    // intervals able to hold the window
    let ones: Vec<TimeInterval<T>> = match w.len() { 0 => vec![TimeInterval::empty(), TimeInterval::default()], 1 => vec![iv(w[0]), s.iter().next().unwrap()], _ => vec![] };
    let k = T::K;
    let mut o = Out::new();
    say!(v, o, "set", format!("{s:?}"));
    say!(v, o, "set clone", format!("{:?}", s.clone()));
    for i in &ones { say!(v, o, "interval", format!("{i:?}")); }
    if w.len() == 0 { say!(v, o, "empty", format!("{:?}", TimeSet::<T>::empty())); }
    v.add(format!("\"o\":\"text\",\"t\":\"{k}\",\"y\":\"debug\""), o, log);
    let mut o = Out::new();
    say!(v, o, "set", format!("{s}"));
    for i in &ones { say!(v, o, "interval", format!("{i}")); }
    if k == "v" {
        say!(v, o, "set format", s.format_timeset(FMT));
        for i in &ones { say!(v, o, "interval format", i.format_timeset(FMT)); }
    }
    v.add(format!("\"o\":\"text\",\"t\":\"{k}\",\"y\":\"show\""), o, log);
    if k == "t" {
        let mut o = Out::new();
        say!(v, o, "set format", s.format_timeset(FMT));
        for i in &ones { say!(v, o, "interval format", i.format_timeset(FMT)); }
        v.add(format!("\"o\":\"text\",\"t\":\"{k}\",\"y\":\"slot\""), o, log);
    }
    #[cfg(feature = "serde")]
    {
        let mut o = Out::new();
        store::all("set", &s, &mut o, |x| jw(&x.iter().map(|p| (p.lower_bound().tk(), p.upper_bound().tk())).collect()));
        for i in &ones { store::all("interval", i, &mut o, |x| if x.is_empty() { "[]".to_string() } else { jw(&vec![(x.lower_bound().tk(), x.upper_bound().tk())]) }); }
        v.add(format!("\"o\":\"store\",\"t\":\"{k}\""), o, log);
    }
}
fn point<T: Kind>(a: i64, v: &mut Ev, log: &mut Log) {
    let x = T::of(a);
    let k = T::K;
    let mut o = Out::new();
    say!(v, o, "debug", format!("{x:?}"));
    v.add(format!("\"o\":\"text\",\"t\":\"{k}\",\"y\":\"debug\""), o, log);
    let mut o = Out::new();
    say!(v, o, "show", format!("{x}"));
    let fin = a != MAX && a != -MAX;
    if k == "v" && fin { say!(v, o, "format", x.format_timepoint(FMT)); }
    v.add(format!("\"o\":\"text\",\"t\":\"{k}\",\"y\":\"show\""), o, log);
    if k == "t" && fin {
        let mut o = Out::new();
        say!(v, o, "format", x.format_timepoint(FMT));
        v.add(format!("\"o\":\"text\",\"t\":\"{k}\",\"y\":\"slot\""), o, log);
    }
    #[cfg(feature = "serde")]
    {
        let mut o = Out::new();
        store::all("point", &x, &mut o, |y| wj(y.tk()));
        v.add(format!("\"o\":\"store\",\"t\":\"{k}\""), o, log);
    }
}

#[cfg(feature = "serde")]
mod store {
    use super::*;
    use serde::{de::DeserializeOwned, Serialize};
    /// every format and every container: equal to what was written, and its parts
    pub fn all<S: Serialize + DeserializeOwned + PartialEq + Clone>(n: &str, s: &S, o: &mut Out, show: impl Fn(&S) -> String) {
        let mut put = |f: &str, g: &dyn Fn() -> S| {
            let r = guard(|| { let y = g(); format!("[{},{}]", (y == *s && *s == y) as u8, show(&y)) });
            o.put(&format!("{n} {f}"), "", r);
        };
        put("json", &|| serde_json::from_str(&serde_json::to_string(s).unwrap()).unwrap());
        put("json pretty bytes", &|| serde_json::from_slice(&serde_json::to_vec_pretty(s).unwrap()).unwrap());
        put("json value", &|| serde_json::from_value(serde_json::to_value(s).unwrap()).unwrap());
        put("json list", &|| { let v: Vec<S> = serde_json::from_str(&serde_json::to_string(&vec![s.clone(), s.clone()]).unwrap()).unwrap(); assert!(v.len() == 2 && v[0] == v[1]); v[1].clone() });
        put("json option", &|| { let v: Option<S> = serde_json::from_str(&serde_json::to_string(&Some(s.clone())).unwrap()).unwrap(); v.unwrap() });
        put("json map", &|| { let m: std::collections::HashMap<String, (S, u8)> = serde_json::from_str(&serde_json::to_string(&std::collections::HashMap::from([("k", (s.clone(), 7u8))])).unwrap()).unwrap(); assert!(m["k"].1 == 7); m["k"].0.clone() });
        put("bincode", &|| bincode::deserialize(&bincode::serialize(s).unwrap()).unwrap());
        put("bincode list", &|| { let v: Vec<(S, u32)> = bincode::deserialize(&bincode::serialize(&vec![(s.clone(), 5u32), (s.clone(), 6)]).unwrap()).unwrap(); assert!(v.len() == 2 && v[0].1 == 5 && v[1].1 == 6 && v[0].0 == v[1].0); v[1].0.clone() });
        put("cbor", &|| { let mut b = vec![]; ciborium::into_writer(s, &mut b).unwrap(); ciborium::from_reader(&b[..]).unwrap() });
    }
}

fn one(kind: &str, t: &Tok, log: &mut Log) {
    let mut v = Ev::new();
    let head = match kind {
        "win" => {
            let w: W = t.l().iter().map(|p| (Big::tok(&p.l()[0]).i64().unwrap(), Big::tok(&p.l()[1]).i64().unwrap())).collect();
            wins(&w, &mut v, log)
        }
        "val" => vals(Big::tok(t).i64().unwrap(), &mut v, log),
        // nanoseconds, rounded up to ticks, both signs
        "ns" => {
            let n = Big::tok(t).i128().unwrap();
            let a = (((n << 30) + 999_999_999).div_euclid(1_000_000_000)).min(MAX as i128 - 1) as i64;
            let mut u = Ev::new();
            let head = vals(-a, &mut u, log);
            log.history(&head, &u.ev, &u.sd);
            vals(a, &mut v, log)
        }
        x => panic!("unknown text job {x}"),
    };
    log.history(&head, &v.ev, &v.sd);
}
fn wins(w: &W, v: &mut Ev, log: &mut Log) -> String {
    journal(&format!("text {w:?}"));
    window::<TimeValue>(w, v, log);
    window::<Timestamp>(w, v, log);
    format!("\"k\":\"win\",\"a\":{}", jw(w))
}
fn vals(a: i64, v: &mut Ev, log: &mut Log) -> String {
    journal(&format!("text {a}"));
    point::<TimeValue>(a, v, log);
    point::<Timestamp>(a, v, log);
    format!("\"k\":\"val\",\"a\":{}", wj(a))
}

pub fn replay(lines: &[Vec<Tok>], keep: u64, rng: &mut Rng, log: &mut Log) {
    if lines.iter().any(|l| l[0].s() == "win") { let mut v = Ev::new(); let h = wins(&vec![], &mut v, log); log.history(&h, &v.ev, &v.sd); }
    for l in lines { if rng.below(keep) == 0 { one(l[0].s(), &l[1], log) } }
}

/// any magnitude, favouring round numbers of units
fn amount(rng: &mut Rng) -> i64 {
    const S: [i64; 7] = [31556952, 2629746, 86400, 3600, 60, 1, 0];
    let x = match rng.below(6) {
        0 => (rng.next() >> 1) as i64 >> rng.below(62),
        1 => rng.range(0, 4_000_000),
        2 => MAX - rng.range(1, 5),
        _ => {
            let mut t: i128 = 0;
            for s in S { if rng.chance(1, 2) { t += (s as i128 * rng.range(0, 60) as i128) << 30 } }
            if rng.chance(1, 2) { t += (rng.range(0, 999) as i128 * *rng.pick(&[1_000_000i128, 1000, 1]) << 30) / 1_000_000_000 }
            (t + rng.range(-2, 2) as i128).clamp(0, MAX as i128 - 1) as i64
        }
    };
    if rng.chance(1, 2) { -x } else { x }
}
pub fn record(hists: usize, parts: u64, rng: &mut Rng, log: &mut Log) {
    for _ in 0..hists {
        let mut v = Ev::new();
        let head = if rng.chance(1, 2) { let a = amount(rng); vals(a, &mut v, log) } else {
            let n = rng.below(parts) as usize;
            let mut b: Vec<i64> = (0..2 * n).map(|_| amount(rng)).collect();
            b.sort();
            let mut w: W = vec![];
            for i in 0..n {
                let (mut lo, mut hi) = (b[2 * i], b[2 * i + 1]);
                if rng.chance(1, 4) { hi = lo }
                if i == 0 && rng.chance(1, 4) { lo = -MAX }
                if i + 1 == n && rng.chance(1, 4) { hi = MAX }
                if w.last().is_none_or(|p| p.1 as i128 + 1 < lo as i128) { w.push((lo, hi)) }
            }
            wins(&w, &mut v, log)
        };
        log.history(&head, &v.ev, &v.sd);
    }
}

/// texts of random networks, of their constraints and of agendas upon them
pub fn nets(hists: usize, nmin: u32, nmax: u32, rng: &mut Rng, log: &mut Log) {
    for hn in 0..hists {
        let n = if hn == 0 && nmin == 0 { 0 } else { nmin + rng.below((nmax - nmin) as u64 + 1) as u32 };
        let sc = *rng.pick(&SCALES[..]);
        let sol: Vec<i64> = (0..n).map(|_| rng.range(-90, 90)).collect();
        let mut g = TimeGraph::with_size(n);
        for _ in 0..if n < 2 { 0 } else { rng.below(2 * n as u64) } {
            let (i, j) = (rng.below(n as u64) as u32, rng.below(n as u64) as u32);
            if i == j { continue }
            let d = sol[j as usize] - sol[i as usize];
            let (l, u) = match rng.below(5) { 0 => (d, d), 1 => (d - rng.range(0, 9), crate::graph::OO), 2 => (-crate::graph::OO, d + rng.range(0, 9)), _ => (d - rng.range(0, 40), d + rng.range(0, 40)) };
            let _ = guard(|| g.propagate(((i, j), sc.span(&(i, j, l, u)))).is_ok());
        }
        journal(&format!("text of network {n} scale {}", sc.0));
        network(&g, log);
        agenda(&g, sc, rng, log);
    }
}
fn network(g: &TimeGraph, log: &mut Log) {
    let n = g.size();
    let lo = format!("[{}]", (0..n).map(|i| format!("[{}]", (0..n).map(|j| wj(g.timespan(i, j).lower_bound().as_ticks())).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
    let mut v = Ev::new();
    let mut o = Out::new();
    say_rows!(v, o, "debug", format!("{g:?}"));
    v.add("\"o\":\"net\",\"y\":\"debug\"".into(), o, log);
    let mut o = Out::new();
    say_rows!(v, o, "show", format!("{g}"));
    v.add("\"o\":\"net\",\"y\":\"show\"".into(), o, log);
    for i in 0..n { for j in 0..n {
        let mut cs = vec![];
        if let Some(c) = g.constraint(i, j) { cs.push(c) }
        cs.extend(g.iter().filter(|c| c.from() == i && c.to() == j));
        cs.extend(g.constraints_from(i).filter(|c| c.to() == j));
        cs.extend(g.constraints_to(j).filter(|c| c.from() == i));
        if cs.is_empty() || (i + j) % 3 == 2 { continue }
        let (mut d, mut s) = (Out::new(), Out::new());
        for c in &cs { say!(v, d, "debug", format!("{c:?}")); }
        v.add(format!("\"o\":\"link\",\"y\":\"debug\",\"i\":{i},\"j\":{j}"), d, log);
        for c in &cs { say!(v, s, "show", format!("{c}")); }
        v.add(format!("\"o\":\"link\",\"y\":\"show\",\"i\":{i},\"j\":{j}"), s, log);
    } }
    log.history(&format!("\"k\":\"net\",\"a\":{lo}"), &v.ev, &v.sd);
}
fn agenda(g: &TimeGraph, sc: Scale, rng: &mut Rng, log: &mut Log) {
    let n = g.size();
    let mut s = TimeScheduler::new(g);
    let base = *rng.pick(&[0i64, 1_700_000_000 << 30, -(40_000_000 << 30)]);
    for _ in 0..if n == 0 { 0 } else { rng.below(4) } {
        let i = rng.below(n as u64) as u32;
        let a = base + rng.range(-200, 200) * sc.0;
        let b = a + rng.range(0, 300) * sc.0;
        let cut: TimeSlots = [TimeInterval::from(Timestamp::of(a)..=Timestamp::of(b))].into_iter().collect();
        let _ = guard(|| { if rng.chance(1, 2) { s.remove(i, cut).is_ok() } else { s.retain(i, cut).is_ok() } });
    }
    let slots = s.schedule();
    let head = format!("\"k\":\"agenda\",\"a\":[{}]", slots.iter().map(|w| jw(&w.iter().map(|i| (i.lower_bound().tk(), i.upper_bound().tk())).collect())).collect::<Vec<_>>().join(","));
    let mut v = Ev::new();
    let mut o = Out::new();
    say_rows!(v, o, "debug", format!("{s:?}"));
    v.add("\"o\":\"agenda\",\"y\":\"debug\"".into(), o, log);
    let mut o = Out::new();
    say_rows!(v, o, "show", format!("{s}"));
    v.add("\"o\":\"agenda\",\"y\":\"show\"".into(), o, log);
    if n > 0 {
        let mut o = Out::new();
        say_rows!(v, o, "format", s.format_timeset(FMT));
        v.add("\"o\":\"agenda\",\"y\":\"slot\"".into(), o, log);
    }
    log.history(&head, &v.ev, &v.sd);
}
