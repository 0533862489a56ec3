//! Windows at any magnitude: parts are pairs of real ticks, up to and including the limits of the
//! representable range.  The forms are those of `win` and `span`, with outcomes written as they are.
use crate::num::{rnd, wj, Big, MAX};
use crate::span::{self, AP, C};
use crate::util::*;
use crate::win::{self, jparts, set_wide, Emb, NINF, PINF};
use chronologic::*;

fn fin(x: i64) -> bool { x != MAX && x != -MAX }

/// the time line cut at every bound of the given windows, and these windows as masks
fn cut(ws: &[&AP]) -> Option<(Emb, Vec<u64>)> {
    let mut st = std::collections::BTreeSet::new();
    for w in ws { for p in w.iter() { if fin(p.0) { st.insert(p.0); } if fin(p.1) { st.insert(p.1 + 1); } } }
    if st.len() > 700 { return None; }
    let em = Emb::from_starts("wide", &st.into_iter().collect::<Vec<_>>());
    let masks = ws.iter().map(|w| (0..em.n()).filter(|&i| w.iter().any(|p| (p.0 <= em.s[i] && em.e[i] <= p.1) && (em.s[i] <= em.e[i]))).fold(vec![false; em.n()], |mut v, i| { v[i] = true; v })).map(win::mask).collect::<Vec<_>>();
    Some((em, masks))
}
pub fn canon(p: &AP) -> bool {
    p.iter().all(|x| x.0 <= x.1 && x.0 != PINF && x.1 != NINF) && p.windows(2).all(|w| w[0].1 < w[1].0 && w[0].1 + 1 < w[1].0)
}
fn parts_of<T: win::Tk>(s: &TimeSet<T>) -> AP { s.iter().take(2000).map(|p| (p.lower_bound().tk(), p.upper_bound().tk())).collect() }

/// one operation; k: a tick or factor, lists of windows and chains in `more`
pub struct Args { pub b: AP, pub k: i64, pub q: i64, pub kind: String, pub l: Vec<AP>, pub code: Vec<i64>, pub c: Vec<C> }
impl Default for Args { fn default() -> Self { Args { b: vec![], k: 0, q: 0, kind: String::new(), l: vec![], code: vec![], c: vec![] } } }

/// event, side, uniform, next window
pub fn step(op: &str, a: &AP, x: &Args, log: &mut Log) -> Option<(String, String, bool, Option<AP>)> {
    journal(&format!("big {op} a={} b={} k={} q={} {} {:?}", jparts(a), jparts(&x.b), x.k, x.q, x.kind, x.c));
    let mut out = Out::new();
    let mut next: Option<AP> = None;
    let head;
    macro_rules! both { ($em:expr, $m:expr, |$md:ident, $s:ident| $call:expr) => {{
        { use win::tv as $md; match guard(|| $md::mk($em, $m)) { Ok($s) => { let r: Option<TimeSpans> = $call; next = next.or(r.map(|s| parts_of(&s))); } Err(e) => out.put("build", "", Err(e)) } }
        { use win::ts as $md; match guard(|| $md::mk($em, $m)) { Ok($s) => { let r: Option<TimeSlots> = $call; next = next.or(r.map(|s| parts_of(&s))); } Err(e) => out.put("build", "", Err(e)) } }
    }}; }
    let ab = format!("\"o\":\"{op}\",\"a\":{},\"b\":{}", jparts(a), jparts(&x.b));
    match op {
        "union" | "inter" | "excl" => {
            let (em, m) = cut(&[a, &x.b])?;
            let o = match op { "union" => 0, "inter" => 1, _ => 2 };
            both!(&em, m[0], |md, s| md::binary(&em, o, &s, m[0], m[1], &mut out));
            head = ab;
        }
        "compl" => { let (em, m) = cut(&[a])?; both!(&em, m[0], |md, s| md::compl(&em, &s, m[0], &mut out)); head = ab; }
        "compl2" => { let (em, m) = cut(&[a])?; both!(&em, m[0], |md, s| { md::compl2(&em, &s, m[0], &mut out); None }); head = ab; }
        "tb" | "ta" => {
            if !fin(x.k) { return None; }
            // an atom which starts (ends) on the date
            let point = vec![(x.k, x.k)];
            let (em, m) = cut(&[a, &point])?;
            let t = (0..em.n()).find(|&i| if op == "tb" { em.s[i] == x.k } else { em.e[i] == x.k })?;
            both!(&em, m[0], |md, s| md::trunc(&em, op == "tb", &s, m[0], t, &mut out));
            head = format!("{ab},\"k\":{}", wj(x.k));
        }
        "has" | "ov" | "eq" => {
            let (em, m) = cut(&[a, &x.b])?;
            let o = match op { "has" => 0, "ov" => 1, _ => 2 };
            both!(&em, m[0], |md, s| { md::relation(&em, o, &s, m[0], m[1], &mut out); None });
            head = ab;
        }
        "ord" => {
            if a.is_empty() || x.b.is_empty() { return None; }
            let (em, m) = cut(&[a, &x.b])?;
            both!(&em, m[0], |md, s| { md::order(&em, &s, m[0], m[1], &mut out); None });
            head = ab;
        }
        "shape" => { let (em, m) = cut(&[a])?; both!(&em, m[0], |md, s| { md::shape(&em, &s, m[0], &mut out); None }); head = ab; }
        "len" => { if a.len() > 1 { return None; } span::len(a, 0, "wide", &mut out); head = ab; }
        "build" => {
            // positions on a time line of two points
            let (p, q) = (x.k, x.q);
            let em = Emb { name: "wide".into(), s: vec![NINF, p, q, PINF], e: vec![NINF, p, q, PINF] };
            let pos = |t: i64, i: usize| if t == NINF { 0 } else if t == PINF { 3 } else { i };
            let (i, j) = (pos(p, 1), if p == q { pos(p, 1) } else { pos(q, 2) });
            // (new_unchecked asks for i <= j to mean p <= q)
            let (em, i, j) = if p > q && fin(p) && fin(q) { (Emb { name: "wide".into(), s: vec![NINF, q, p, PINF], e: vec![NINF, q, p, PINF] }, 2, 1) } else { (em, i, j) };
            win::tv::build(&em, &x.kind, i, j, &mut out);
            win::ts::build(&em, &x.kind, i, j, &mut out);
            head = format!("\"o\":\"build\",\"kind\":\"{}\",\"k\":{},\"q\":{}", x.kind, wj(p), wj(q));
        }
        "collect" => {
            let l: Vec<&AP> = x.l.iter().collect();
            let (em, m) = cut(&l)?;
            win::tv::collect(&em, &m, &mut out);
            win::ts::collect(&em, &m, &mut out);
            head = format!("\"o\":\"collect\",\"l\":[{}]", x.l.iter().map(|w| jparts(w)).collect::<Vec<_>>().join(","));
        }
        "lazy" => {
            let l: Vec<&AP> = x.l.iter().collect();
            let (em, m) = cut(&l)?;
            // operands are numbered in the code
            let code: Vec<i64> = x.code.iter().map(|&c| if c >= 0 { m[c as usize] as i64 } else { c }).collect();
            win::tv::lazy(&em, &code, &mut out);
            win::ts::lazy(&em, &code, &mut out);
            head = format!("\"o\":\"lazy\",\"c\":[{}]", x.code.iter().map(|&c| match c {
                -1 => "{\"k\":\"u\"}".to_string(), -2 => "{\"k\":\"i\"}".to_string(), -3 => "{\"k\":\"c\"}".to_string(), -4 => "{\"k\":\"x\"}".to_string(),
                i => format!("{{\"k\":\"w\",\"w\":{}}}", jparts(&x.l[i as usize])) }).collect::<Vec<_>>().join(","));
        }
        "chain" => {
            let (e, s) = span::chain_event(&x.c, log);
            return Some((e, s, true, None));
        }
        "sum" => {
            span::tv::sum(a, 0, &x.b, 0, "wide", &mut out); span::ts::sum(a, 0, &x.b, 0, "wide", &mut out); span::sum_dates(a, 0, &x.b, 0, "wide", &mut out);
            next = guard(|| win::tv::raw(a) + win::tv::raw(&x.b)).ok().map(|s| parts_of(&s));
            head = ab;
        }
        "diff" => {
            span::tv::diff(a, 0, &x.b, 0, "wide", &mut out); span::ts::diff(a, 0, &x.b, 0, "wide", &mut out); span::diff_dates(a, 0, &x.b, 0, "wide", &mut out);
            next = guard(|| win::tv::raw(a) - win::tv::raw(&x.b)).ok().map(|s| parts_of(&s));
            head = ab;
        }
        "neg" => {
            span::tv::neg(a, 0, "wide", &mut out); span::ts::neg(a, 0, "wide", &mut out);
            next = guard(|| -win::tv::raw(a)).ok().map(|s| parts_of(&s));
            head = ab;
        }
        "mul" => { span::scale_int(true, a, x.k, None, &mut out); span::scale_exact(true, a, x.k, &mut out); next = guard(|| win::tv::raw(a) * x.k).ok().map(|s| parts_of(&s)); head = format!("{ab},\"k\":{}", wj(x.k)); }
        "div" => {
            if x.k == 0 { return None; }
            span::scale_int(false, a, x.k, None, &mut out);
            span::scale_exact(false, a, x.k, &mut out);
            next = guard(|| win::tv::raw(a) / x.k).ok().map(|s| parts_of(&s));
            // witnesses: the quotient of every bound
            let qt = |t: i64| -> String { if fin(t) { Big::of(t as i128 / x.k as i128).js() } else if (t > 0) == (x.k > 0) { wj(MAX) } else { wj(-MAX) } };
            head = format!("{ab},\"k\":{},\"w\":[{}]", wj(x.k), a.iter().map(|p| format!("[{},{}]", qt(p.0), qt(p.1))).collect::<Vec<_>>().join(","));
        }
        "around" => { if !fin(x.k) { return None; } span::tv::centre(x.k, 0, x.q, "wide", &mut out); span::ts::centre(x.k, 0, x.q, "wide", &mut out);
            head = format!("\"o\":\"around\",\"k\":{},\"q\":{}", wj(x.k), wj(x.q)); }
        "grow" => { if a.len() > 1 || !fin(x.k) { return None; } span::tv::grow(a, 0, x.k, "wide", &mut out); span::ts::grow(a, 0, x.k, "wide", &mut out);
            head = format!("{ab},\"k\":{}", wj(x.k)); }
        _ => panic!("unknown op {op}"),
    }
    log.forms += out.total;
    Some((format!("{{{head},\"r\":{},\"x\":{}}}", out.json(), out.np()), out.forms(), out.uniform(), next))
}

fn wide_i64(t: &Tok) -> i64 { Big::tok(t).i64().unwrap() }
fn window(t: &Tok) -> AP { t.l().iter().map(|p| (wide_i64(&p.l()[0]), wide_i64(&p.l()[1]))).collect() }

/// lines: op, window, window, tick, tick, kind
pub fn replay(lines: &[Vec<Tok>], keep: u64, rng: &mut Rng, log: &mut Log) {
    set_wide(true);
    for l in lines {
        if keep > 1 && !rng.chance(1, keep) { continue; }
        let (op, a) = (l[0].s(), window(&l[1]));
        let mut x = Args { b: window(&l[2]), k: wide_i64(&l[3]), q: wide_i64(&l[4]), kind: l[5].s().to_string(), ..Default::default() };
        match op {
            // both operands, one operator
            "lazy" => { x.l = vec![a.clone(), x.b.clone()]; x.code = match x.kind.as_str() { "u" => vec![0, 1, -1], "i" => vec![0, 1, -2], "x" => vec![0, 1, -4], _ => vec![0, -3] }; }
            "collect" => { x.l = vec![a.clone(), x.b.clone(), a.clone()]; }
            _ => {}
        }
        if let Some((e, s, _, _)) = step(op, &a, &x, log) { log.history("", &[e], &[s]); }
    }
}

/// bounds next to limits, to each other, or anywhere
fn bound(rng: &mut Rng, near: &[i64]) -> i64 {
    match rng.below(6) {
        0 => MAX - 1 - rng.below(3) as i64,
        1 => -MAX + 1 + rng.below(3) as i64,
        2 | 3 if !near.is_empty() => (*rng.pick(near)).saturating_add(rng.range(-2, 2)).clamp(-MAX + 1, MAX - 1),
        4 => rng.range(-6, 6),
        _ => rnd(rng).clamp(-MAX + 1, MAX - 1),
    }
}
fn window_near(rng: &mut Rng, near: &[i64], max: u64) -> AP {
    let n = rng.below(max + 1) as usize;
    if n == 0 { return if rng.chance(1, 2) { vec![(NINF, PINF)] } else { vec![] }; }
    let mut v: Vec<i64> = (0..2 * n).map(|_| bound(rng, near)).collect();
    v.sort();
    let mut p: AP = vec![];
    for i in 0..n {
        let (lo, hi) = (v[2 * i], if rng.chance(1, 4) { v[2 * i] } else { v[2 * i + 1] });
        match p.last_mut() { Some(l) if l.1 + 1 >= lo => l.1 = l.1.max(hi), _ => p.push((lo, hi)) }
    }
    if rng.chance(1, 5) { p[0].0 = NINF; }
    if rng.chance(1, 5) { p.last_mut().unwrap().1 = PINF; }
    p
}

pub fn record(ops: &[&str], hists: usize, len: usize, parts: u64, rng: &mut Rng, log: &mut Log) {
    set_wide(true);
    const KINDS: [&str; 11] = ["new", "single", "after", "before", "all", "empty", "a..b", "a..=b", "a..", "..b", "..=b"];
    for _ in 0..hists {
        let mut a = window_near(rng, &[], parts);
        let (mut evs, mut sides) = (vec![], vec![]);
        for _ in 0..len {
            let op = *rng.pick(ops);
            let near: Vec<i64> = a.iter().flat_map(|p| [p.0, p.1]).filter(|&t| fin(t)).collect();
            let top = near.iter().map(|t| t.unsigned_abs()).max().unwrap_or(0).max(1) as i128;
            let mut x = Args { b: window_near(rng, &near, parts), ..Default::default() };
            match op {
                "tb" | "ta" => x.k = bound(rng, &near),
                "build" => { let e = |rng: &mut Rng| match rng.below(6) { 0 => MAX, 1 => -MAX, _ => bound(rng, &[]) };
                    x.k = e(rng); x.q = if rng.chance(1, 3) { x.k.saturating_add(rng.range(-2, 2)).clamp(-MAX, MAX) } else { e(rng) }; x.kind = rng.pick(&KINDS).to_string(); }
                "collect" => x.l = (0..rng.below(5)).map(|_| window_near(rng, &near, 2)).collect(),
                "lazy" => {
                    let n = 2 + rng.below(3) as usize;
                    x.l = (0..n).map(|i| if i == 0 { a.clone() } else { window_near(rng, &near, parts) }).collect();
                    x.code = vec![0];
                    for i in 1..n { x.code.push(i as i64); if rng.chance(1, 4) { x.code.push(-3); } x.code.push(*rng.pick(&[-1, -2, -4])); if rng.chance(1, 4) { x.code.push(-3); } }
                }
                "chain" => {
                    x.c = vec![C::W(a.clone())];
                    for _ in 0..1 + rng.below(4) {
                        match rng.below(6) {
                            0 => x.c.push(C::N),
                            1 => { x.c.push(C::W(window_near(rng, &near, 2))); x.c.push(match rng.below(3) { 0 => C::U, 1 => C::I, _ => C::X }); }
                            2 => { let lo = shift(rng, &near); let hi = lo.saturating_add(rng.range(0, 5)).min(MAX - 1); x.c.push(C::TS(vec![(lo, hi)])); }
                            3 => x.c.push(C::S(rng.range(-3, 3))),
                            _ => x.c.push(C::T(shift(rng, &near))),
                        }
                    }
                }
                // shifts which keep the window inside, most of the time
                "sum" | "diff" => {
                    if rng.chance(3, 4) {
                        let s = shift(rng, &near);
                        let s = if op == "diff" { -s } else { s };
                        x.b = vec![(s, if rng.chance(1, 2) { s } else { s.saturating_add(rng.range(0, 5)).min(MAX - 1) })];
                        if rng.chance(1, 6) { x.b[0].1 = PINF; }
                        if rng.chance(1, 6) { x.b[0].0 = NINF; }
                    }
                }
                "mul" => { let m = ((MAX - 1) as i128 / top) as i64; x.k = match rng.below(4) { 0 => m, 1 => -m, 2 => rng.range(-9, 9), _ => if m > 1 { rng.range(-m, m) } else { 1 } }; }
                "div" => { x.k = match rng.below(3) { 0 => rng.range(-9, 9), 1 => rnd(rng), _ => if near.is_empty() { 1 } else { *rng.pick(&near) / (1 + rng.below(4) as i64) } }; }
                "around" => { x.k = bound(rng, &near); x.q = match rng.below(3) { 0 => rng.range(-3, 9), 1 => rnd(rng), _ => (MAX - x.k.abs()).saturating_add(rng.range(-2, 1)) }; }
                "grow" => { x.k = match rng.below(3) { 0 => rng.range(-5, 5), 1 => rnd(rng), _ => ((MAX as i128 - top) as i64).saturating_add(rng.range(-2, 2)) * if rng.chance(1, 3) { -1 } else { 1 } }; }
                _ => {}
            }
            let Some((e, s, uni, next)) = step(op, &a, &x, log) else { continue };
            evs.push(e);
            sides.push(s);
            if !uni { break; }
            if matches!(op, "union" | "inter" | "excl" | "compl" | "tb" | "ta" | "sum" | "diff" | "neg" | "mul" | "div") {
                let Some(p) = next else { break };
                if !canon(&p) { break; }
                a = p;
                if a.len() > 8.max(2 * parts as usize) { break; }
            }
        }
        if !evs.is_empty() { log.history("", &evs, &sides); }
    }
}
/// a shift which leaves every bound finite, up to a few ticks
fn shift(rng: &mut Rng, near: &[i64]) -> i64 {
    let (lo, hi) = (near.iter().min().copied().unwrap_or(0) as i128, near.iter().max().copied().unwrap_or(0) as i128);
    let (down, up) = (-(MAX as i128) + 1 - lo, MAX as i128 - 1 - hi);
    match rng.below(4) {
        0 => (up - rng.below(3) as i128).clamp(-(MAX as i128) + 1, MAX as i128 - 1) as i64,
        1 => (down + rng.below(3) as i128).clamp(-(MAX as i128) + 1, MAX as i128 - 1) as i64,
        2 => rng.range(-9, 9),
        _ => if down < up { rng.range(down.max(-(MAX as i128) + 1) as i64, up.min(MAX as i128 - 1) as i64) } else { 0 },
    }
}
