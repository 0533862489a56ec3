//! Shared plumbing: random numbers, outcome grouping, guards, journal, watchdog.
use std::cell::RefCell;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self { Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 { self.next() % n.max(1) }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        let span = (hi as i128 - lo as i128 + 1) as u128;
        (lo as i128 + ((self.next() as u128) % span) as i128) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len() as u64) as usize] }
}

/// Distinct outcomes of one abstract operation over every API form and embedding.
#[derive(Default)]
pub struct Out {
    pub vals: Vec<(String, Vec<String>)>,
    pub panics: Vec<String>,
    pub total: u64,
}
pub const MAXNAMES: usize = 12;
impl Out {
    pub fn new() -> Self { Self::default() }
    pub fn put(&mut self, name: &str, emb: &str, v: Result<String, String>) {
        self.total += 1;
        match v {
            Ok(s) => {
                if let Some(x) = self.vals.iter_mut().find(|x| x.0 == s) {
                    if x.1.len() < MAXNAMES { x.1.push(format!("{name}@{emb}")); }
                } else {
                    self.vals.push((s, vec![format!("{name}@{emb}")]));
                }
            }
            Err(m) => {
                if self.panics.len() < MAXNAMES { self.panics.push(format!("{name}@{emb}: {m}")); }
                else { self.panics.truncate(MAXNAMES); }
            }
        }
    }
    /// JSON list of distinct outcomes
    pub fn json(&self) -> String {
        let v: Vec<&str> = self.vals.iter().map(|x| x.0.as_str()).collect();
        format!("[{}]", v.join(","))
    }
    pub fn np(&self) -> usize { self.panics.len() }
    pub fn uniform(&self) -> bool { self.panics.is_empty() && self.vals.len() == 1 }
    /// explanatory side information
    pub fn forms(&self) -> String {
        let mut s = String::from("{\"outcomes\":[");
        for (k, (v, n)) in self.vals.iter().enumerate() {
            if k > 0 { s.push(','); }
            s += &format!("{{\"value\":{},\"forms\":{}}}", v, jstrs(n));
        }
        s += &format!("],\"panics\":{}}}", jstrs(&self.panics));
        s
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn jstrs(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","))
}
pub fn jints<T: std::fmt::Display>(v: &[T]) -> String {
    format!("[{}]", v.iter().map(|s| s.to_string()).collect::<Vec<_>>().join(","))
}

thread_local! { static LASTPANIC: RefCell<String> = RefCell::new(String::new()); }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = info.to_string();
        LASTPANIC.with(|p| *p.borrow_mut() = m);
    }));
}

/// Runs code under test: a panic is data.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(LASTPANIC.with(|p| p.borrow().clone())),
    }
}

static BEAT: AtomicU64 = AtomicU64::new(1);
static CURRENT: Mutex<Option<std::fs::File>> = Mutex::new(None);
static CURTXT: Mutex<String> = Mutex::new(String::new());

/// Journal of the operation under way: survives an abort or a hang.
pub fn journal_open(path: &str) {
    *CURRENT.lock().unwrap() = std::fs::File::create(path).ok();
}
pub fn journal(txt: &str) {
    use std::os::unix::fs::FileExt;
    BEAT.fetch_add(1, Ordering::Relaxed);
    if let Some(f) = CURRENT.lock().unwrap().as_ref() {
        let mut b = txt.as_bytes().to_vec();
        b.push(b'\n');
        let _ = f.set_len(b.len() as u64);
        let _ = f.write_at(&b, 0);
    }
    let mut c = CURTXT.lock().unwrap();
    c.clear();
    c.push_str(txt);
}
/// exit code 3: an operation did not come back
pub fn watchdog(limit_s: u64) {
    std::thread::spawn(move || {
        let mut last = 0;
        let mut still = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let b = BEAT.load(Ordering::Relaxed);
            if b == last { still += 1 } else { still = 0; last = b; }
            if still >= limit_s {
                eprintln!("HANG in: {}", CURTXT.lock().unwrap());
                std::process::exit(3);
            }
        }
    });
}

/// Two parallel ndjson files: what TLC reads, and explanations for the replay file.
pub struct Log {
    w: std::io::BufWriter<std::fs::File>,
    side: std::io::BufWriter<std::fs::File>,
    pub hist: u64,
    pub events: u64,
    pub forms: u64,
}
impl Log {
    pub fn create(path: &str) -> Self {
        Log {
            w: std::io::BufWriter::new(std::fs::File::create(path).unwrap()),
            side: std::io::BufWriter::new(std::fs::File::create(format!("{path}.side")).unwrap()),
            hist: 0, events: 0, forms: 0,
        }
    }
    /// head: JSON members without braces (may be empty); events: JSON objects
    pub fn history(&mut self, head: &str, events: &[String], side: &[String]) {
        if events.is_empty() { return; }
        let c = if head.is_empty() { "" } else { "," };
        writeln!(self.w, "{{{head}{c}\"e\":[{}]}}", events.join(",")).unwrap();
        writeln!(self.side, "{{{head}{c}\"events\":[{}],\"side\":[{}]}}", events.join(","), side.join(",")).unwrap();
        self.hist += 1;
        self.events += events.len() as u64;
    }
    pub fn finish(mut self) {
        self.w.flush().unwrap();
        self.side.flush().unwrap();
        println!("STATS histories={} events={} forms={}", self.hist, self.events, self.forms);
    }
}

/// A line printed by the specification: nested << >> of integers and strings.
#[derive(Clone, Debug)]
pub enum Tok { I(i64), S(String), L(Vec<Tok>) }
impl Tok {
    pub fn i(&self) -> i64 { if let Tok::I(x) = self { *x } else { panic!("expected int in spec line: {self:?}") } }
    pub fn s(&self) -> &str { if let Tok::S(x) = self { x } else { panic!("expected string in spec line: {self:?}") } }
    pub fn l(&self) -> &[Tok] { if let Tok::L(x) = self { x } else { panic!("expected tuple in spec line: {self:?}") } }
    pub fn ints(&self) -> Vec<i64> { self.l().iter().map(|t| t.i()).collect() }
}
pub fn parse_tok(s: &str) -> Option<Tok> {
    let b: Vec<char> = s.chars().collect();
    let mut p = 0;
    let r = ptok(&b, &mut p)?;
    Some(r)
}
fn ws(b: &[char], p: &mut usize) { while *p < b.len() && b[*p].is_whitespace() { *p += 1 } }
fn ptok(b: &[char], p: &mut usize) -> Option<Tok> {
    ws(b, p);
    if *p >= b.len() { return None; }
    if b[*p] == '<' {
        *p += 2;
        let mut v = vec![];
        loop {
            ws(b, p);
            if *p >= b.len() { return None; }
            if b[*p] == '>' { *p += 2; return Some(Tok::L(v)); }
            if b[*p] == ',' { *p += 1; continue; }
            v.push(ptok(b, p)?);
        }
    }
    if b[*p] == '"' {
        let mut s = String::new();
        *p += 1;
        while *p < b.len() && b[*p] != '"' { s.push(b[*p]); *p += 1; }
        *p += 1;
        return Some(Tok::S(s));
    }
    if b[*p] == 'T' || b[*p] == 'F' {
        let t = b[*p] == 'T';
        while *p < b.len() && b[*p].is_alphabetic() { *p += 1; }
        return Some(Tok::I(t as i64));
    }
    let st = *p;
    while *p < b.len() && (b[*p] == '-' || b[*p].is_ascii_digit()) { *p += 1; }
    if st == *p { return None; }
    b[st..*p].iter().collect::<String>().parse().ok().map(Tok::I)
}
/// The transitions the specification printed: lines starting with <<"T"
pub fn read_lines(path: &str) -> Vec<Vec<Tok>> {
    let txt = std::fs::read_to_string(path).expect("input");
    txt.lines().filter(|l| l.starts_with("\"<<\\\"T\\\""))
        .map(|l| l[1..l.len() - 1].replace("\\\"", "\""))
        .map(|l| match parse_tok(&l) { Some(Tok::L(v)) => v[1..].to_vec(), _ => panic!("bad line {l}") })
        .collect()
}
