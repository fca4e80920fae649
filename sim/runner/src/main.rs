mod check;
mod drive;
mod gen;
mod host;
mod model;
mod plan;
mod rng;
mod seam;
mod wire;

use check::{analyse, Summary};
use host::{Engine, W};
use plan::Plan;

pub struct Run { pub w: W, pub sum: Summary }

/// One simulated execution, on a thread of its own.
pub fn execute(plan: &Plan) -> Result<Run, String> {
    let p = plan.clone();
    std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
        let w = Engine::new(&p).run(model::guards);
        let sum = analyse(&w);
        Run { w, sum }
    }).map_err(|e| e.to_string())?.join().map_err(|e| e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "harness panic".into()))
}

/// One arena, kept: a VM start allocates and frees a lot, and page faults would dominate a run.
fn tune() { unsafe { libc::mallopt(libc::M_ARENA_MAX, 1); libc::mallopt(libc::M_TRIM_THRESHOLD, 1 << 30); libc::mallopt(libc::M_TOP_PAD, 64 << 20); libc::mallopt(libc::M_MMAP_THRESHOLD, 1 << 30); } }

fn main() {
    tune();
    if std::env::var_os("SIM_PANIC").is_none() { std::panic::set_hook(Box::new(|_| {})); }
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("one") => {
            let plan = gen::generate(&a[2], a[3].parse().unwrap());
            show(&plan, a.get(4).is_some());
        }
        Some("replay") => {
            let c = drive::replay(&a[2], a.get(3).is_some());
            std::process::exit(c);
        }
        Some("worker") => drive::worker(&a[2..]),
        Some("digests") => drive::digests(&a[2..]),
        // check <property> <quick|thorough> <seed> <root>
        Some("check") => {
            let c = drive::check(&a[2], &a[3], a[4].parse().unwrap_or(1), &a[5]);
            std::process::exit(c);
        }
        Some("sweep") => {
            let (n0, n1): (u64, u64) = (a[3].parse().unwrap(), a[4].parse().unwrap());
            let t = std::time::Instant::now();
            let mut bad = 0;
            let mut kinds: std::collections::BTreeMap<String, (u64, u64)> = Default::default();
            for seed in n0..n1 {
                let plan = gen::generate(&a[2], seed);
                match execute(&plan) {
                    Err(e) => println!("seed {seed}: HARNESS {e}"),
                    Ok(r) => if !r.sum.viol.is_empty() { if std::env::var("SHOW").is_ok() { history(&r); for v in &r.sum.viol { println!("VIOL t={} {}", v.t, v.what); } } bad += 1; for v in &r.sum.viol { let k = format!("{:?} {}", v.props, norm(&v.what)); let e = kinds.entry(k).or_insert((0, seed)); e.0 += 1; } }
                }
            }
            println!("{} runs, {} bad, {:?}", n1 - n0, bad, t.elapsed());
            let mut v: Vec<_> = kinds.into_iter().collect();
            v.sort_by_key(|x| std::cmp::Reverse(x.1 .0));
            for (k, (n, s)) in v.iter().take(40) { println!("{n:>5} seed {s}: {k}"); }
        }
        _ => eprintln!("usage"),
    }
}
fn norm(s: &str) -> String { let s: String = s.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).collect(); s.chars().take(260).collect() }

fn show(plan: &Plan, verbose: bool) {
    println!("{}", serde_json::to_string_pretty(plan).unwrap());
    let r = match execute(plan) { Ok(r) => r, Err(e) => { println!("HARNESS {e}"); return } };
    if verbose { history(&r); }
    println!("digest {:x} events {} hostcalls {} modelled {} skipped {} nt {:?}", r.w.digest, r.w.events, r.w.hostcalls, r.sum.modelled, r.sum.skipped, r.sum.nontrivial);
    for v in &r.sum.viol { println!("VIOL t={} {:?} {}", v.t, v.props, v.what); }
}

pub fn history(r: &Run) {
    for rec in &r.w.recs { println!("{rec:?}"); }
    for (i, c) in r.w.calls.iter().enumerate() { println!("call {i}: t {} stream {:?} {:?} act {} {}/{}/{} failed {} settled {:?}", c.t, c.stream, c.kind, c.act, c.cluster, c.service, c.method, c.failed, c.settled.as_ref().map(|x| (x.0, x.1.len()))); }
}
