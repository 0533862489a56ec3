mod big;
mod endless;
mod graph;
mod num;
mod render;
mod sched;
mod span;
mod util;
mod win;
use util::*;

fn arg(a: &[String], k: &str, d: &str) -> String {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or(d.to_string())
}

fn main() {
    install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).cloned().unwrap_or_default();
    let seed: u64 = arg(&a, "--seed", "1").parse().unwrap();
    let out = arg(&a, "--out", "/dev/null");
    let inp = arg(&a, "--in", "");
    let n: usize = arg(&a, "--n", "6").parse().unwrap();
    // the smallest network, when it is to be large
    let nmin: u32 = arg(&a, "--nmin", "0").parse().unwrap();
    let hists: usize = arg(&a, "--hists", "100").parse().unwrap();
    let keep: u64 = arg(&a, "--keep", "1").parse().unwrap();
    let len: usize = arg(&a, "--len", "20").parse().unwrap();
    let ops = arg(&a, "--ops", "");
    let ops: Vec<&str> = ops.split(',').collect();
    journal_open(&format!("{out}.journal"));
    watchdog(arg(&a, "--hang", "40").parse().unwrap());
    let mut rng = Rng::new(seed);
    let mut log = Log::create(&out);
    match cmd.as_str() {
        "win-replay" => win::replay(&read_lines(&inp), n, &mut rng, &mut log),
        "win-edge" => win::edge(&read_lines(&inp), n, &mut rng, &mut log),
        "win-record" => win::record(&ops, n, hists, len, &mut rng, &mut log),
        "win-lazy" => {
            let mut lines = vec![];
            for _ in 0..hists {
                let mut code = vec![];
                let d = 1 + rng.below(4) as usize;
                win::random_chain(n, d, &mut rng, &mut code);
                lines.push(vec![Tok::S("lazy".into()), Tok::I(0), Tok::L(code.into_iter().map(Tok::I).collect())]);
            }
            win::replay(&lines, n, &mut rng, &mut log)
        }
        "win-shape" => {
            let lines: Vec<Vec<Tok>> = (0..hists).map(|_| vec![Tok::S("shape".into()), Tok::I(win::many(n, &mut rng) as i64), Tok::L(vec![])]).collect();
            win::replay(&lines, n, &mut rng, &mut log)
        }
        "win-collect" => {
            let mut lines = vec![];
            for _ in 0..hists {
                let k = if rng.chance(1, 12) { rng.below(40) } else { rng.below(7) };
                let l = (0..k).map(|_| Tok::I(if n >= 64 { win::many(n, &mut rng) as i64 } else { match rng.below(5) { 0 => 0, 1 => rng.below(1 << n) as i64,
                    _ => { let a = rng.below(n as u64); let b = a + rng.below((n as u64 - a).min(3)); ((1i64 << (b + 1)) - (1i64 << a)) } } })).collect();
                lines.push(vec![Tok::S("collect".into()), Tok::I(0), Tok::L(l)]);
            }
            win::replay(&lines, n, &mut rng, &mut log)
        }
        "num-replay" => num::replay(&read_lines(&inp), keep, &mut rng, &mut log),
        "num-record" => num::record(&ops, hists, len, &mut rng, &mut log),
        "num-seqs" => num::seqs(hists, &mut rng, &mut log),
        "text-replay" => render::replay(&read_lines(&inp), keep, &mut rng, &mut log),
        "text-record" => render::record(hists, n as u64, &mut rng, &mut log),
        "text-nets" => render::nets(hists, nmin, n as u32, &mut rng, &mut log),
        "span-replay" => span::replay(&read_lines(&inp), keep, &mut rng, &mut log),
        "span-record" => span::record(&ops, hists, len, arg(&a, "--parts", "0").parse().unwrap(), &mut rng, &mut log),
        "span-chain" => span::chains(hists, &mut rng, &mut log),
        "big-replay" => big::replay(&read_lines(&inp), keep, &mut rng, &mut log),
        "big-record" => big::record(&ops, hists, len, arg(&a, "--parts", "3").parse().unwrap(), &mut rng, &mut log),
        "endless-replay" => endless::replay(&read_lines(&inp), keep, &mut rng, &mut log),
        "endless-record" => endless::record(hists, &mut rng, &mut log),
        "sched-replay" => sched::replay(&read_lines(&inp), keep, &mut rng, &mut log),
        "sched-record" => sched::record(&ops, nmin.max(1), n as u32, hists, len, &mut rng, &mut log),
        "sched-cascade" => sched::cascade(n as u32, hists, len, &mut rng, &mut log),
        "sched-traps" => sched::traps(n as u32, hists, len, &mut rng, &mut log),
        "graph-replay" => graph::replay(&read_lines(&inp), keep, &mut rng, &mut log),
        "graph-record" => graph::record(&ops, nmin.max(2), n as u32, hists, len, &mut rng, &mut log),
        _ => { eprintln!("unknown command {cmd}"); std::process::exit(2); }
    }
    log.finish();
}
