//! The driver of a check: worker processes that search seeds, minimisation, replay files, evidence.
use crate::plan::*;
use crate::{check, execute, gen, host};
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

/// What a check is about, and which profiles it draws its executions from.
pub const PROPS: [(&str, &[&str]); 22] = [
    ("P01", &["guards", "body", "failure", "general", "legacy", "guards", "denied", "large"]),
    ("P02", &["guards", "failure", "legacy", "body", "headers", "general", "denied", "large"]),
    ("P03", &["failure", "failure", "guards", "usage", "legacy", "general", "wide", "denied"]),
    ("P04", &["general", "disc", "guards", "stream", "chaos", "failure", "denied", "large"]),
    ("P05", &["general", "store", "guards", "legacy", "headers", "usage", "wide", "denied", "large"]),
    ("P06", &["guards", "wide", "general", "legacy", "wide", "disc", "trace", "failure", "denied"]),
    ("P07", &["general", "trace", "reload", "disc", "legacy", "body", "storm"]),
    ("P08", &["body", "store", "body", "guards", "large"]),
    ("P09", &["usage", "stream", "usage", "legacy", "large"]),
    ("P10", &["stream", "usage", "failure", "general", "denied", "large"]),
    ("P11", &["reload", "reload", "desc", "retrace"]),
    ("P12", &["desc", "desc", "reload", "chaos", "large"]),
    ("P13", &["general", "failure", "guards", "disc", "reload", "stream", "legacy", "denied", "large"]),
    ("P14", &["general", "store", "wide", "guards", "usage", "body"]),
    ("P15", &["headers", "headers", "legacy", "guards", "stream", "wide", "large"]),
    ("P16", &["trace", "headers", "retrace", "legacy", "retrace", "large"]),
    ("P17", &["trace", "retrace", "trace", "disc", "storm"]),
    ("P18", &["chaos", "failure", "chaos", "disc", "desc"]),
    ("P19", &["legacy", "usage", "legacy", "headers", "large"]),
    ("P20", &["store", "body", "wide", "store", "guards", "wide", "large"]),
    ("P21", &["disc", "disc", "chaos", "trace", "denied", "storm"]),
    ("P22", &["reload", "general", "reload", "disc", "stream"]),
];

pub fn mix(prop: &str) -> Option<&'static [&'static str]> { PROPS.iter().find(|(p, _)| *p == prop).map(|(_, m)| *m) }

fn plan_of(prop: &str, seed: u64, i: u64) -> Plan {
    let m = mix(prop).unwrap();
    let mut z = seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ i.wrapping_mul(0xbf58_476d_1ce4_e5b9) ^ 0x51_7c_c1_b7;
    for b in prop.bytes() { z = (z ^ b as u64).wrapping_mul(0x100_0000_01b3); }
    z = (z ^ (z >> 29)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^= z >> 32;
    gen::generate(m[(i % m.len() as u64) as usize], z >> 8)
}


/// Kind of a violation, without the particulars: what minimisation must preserve.
pub fn class(what: &str) -> String {
    let s: String = what.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).collect();
    let s = s.split(" [model:").next().unwrap_or("").to_string();
    let mut kept = String::new();
    for part in s.split("; ") {
        let head: String = part.split(['[', '{', '(', '"']).next().unwrap_or("").chars().filter(|c| *c != '#').collect();
        kept.push_str(head.trim());
        kept.push(';');
    }
    // where in the request's life it happened is part of the kind
    for k in ["ReqHdr", "ReqBody", "ReqTrl", "RespHdr", "RespBody", "RespTrl", "Reply", "Done"] { if s.contains(&format!(" at {k}")) { kept.push_str(k); } }
    kept
}


/// What one execution showed, as seen from outside the process it ran in.
pub struct Seen { pub j: J, pub viol: Vec<(BTreeSet<String>, u64, String)>, pub harness: Option<String> }

/// Every execution is a process of its own (a VM is one, too): nothing of an earlier run can reach it, and a trap
/// ends only it.
pub fn isolated(plan: &Plan) -> Seen {
    use std::io::Read;
    use std::os::fd::FromRawFd;
    let mut fds = [0i32; 2];
    unsafe { assert_eq!(libc::pipe(fds.as_mut_ptr()), 0); }
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        unsafe { libc::close(fds[0]); libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); libc::alarm(40); }
        let j = match execute(plan) {
            Err(e) => json!({"harness": e}),
            Ok(r) => {
                let v: Vec<J> = r.sum.viol.iter().take(40).map(|v| json!([v.props, v.t, v.what])).collect();
                json!({"d": format!("{:x}", r.w.digest), "s": format!("{:x}", r.sum.shape), "nt": r.sum.nontrivial, "ev": r.w.events, "hc": r.w.hostcalls, "ms": r.w.now, "m": r.sum.modelled,
                    "k": r.sum.skipped, "st": plan.streams.len(), "c": r.w.calls.len(), "f": r.w.fault_counts, "p": plan.profile, "v": v})
            }
        };
        let mut f = unsafe { std::fs::File::from_raw_fd(fds[1]) };
        let _ = f.write_all(j.to_string().as_bytes());
        drop(f);
        unsafe { libc::_exit(0) }
    }
    unsafe { libc::close(fds[1]); }
    let mut f = unsafe { std::fs::File::from_raw_fd(fds[0]) };
    let mut b = String::new();
    let _ = f.read_to_string(&mut b);
    let mut st = 0;
    unsafe { libc::waitpid(pid, &mut st, 0); }
    let trap = |why: String| Seen { j: json!({"d": "0", "s": "0", "p": plan.profile}), viol: vec![(BTreeSet::from(["P18".to_string()]), 0, format!("TRAP: {why}"))], harness: None };
    if libc::WIFSIGNALED(st) {
        let sig = libc::WTERMSIG(st);
        if sig == libc::SIGKILL { return Seen { j: J::Null, viol: vec![], harness: Some("the execution was killed".into()) } }
        return trap(if sig == libc::SIGALRM { "a callback does not return".into() } else { format!("the module did not survive (signal {sig})") })
    }
    let j: J = match serde_json::from_str(&b) { Ok(j) => j, Err(_) => return trap(format!("the module did not survive (status {st:x})")) };
    if let Some(e) = j["harness"].as_str() { return Seen { harness: Some(e.to_string()), viol: vec![], j: J::Null } }
    let viol = j["v"].as_array().into_iter().flatten().map(|v| (v[0].as_array().into_iter().flatten().filter_map(|x| x.as_str().map(String::from)).collect(), v[1].as_u64().unwrap_or(0), v[2].as_str().unwrap_or("").to_string())).collect();
    Seen { j, viol, harness: None }
}

/// The same execution without what the property is about: other requests, body chunking, disconnects, faults ...
/// When a violation disappears with it, the violation is one of that property.
fn without(plan: &Plan, prop: &str, what: &str) -> Option<Plan> {
    let mut p = plan.clone();
    let fast = |p: &mut Plan, f: &dyn Fn(&mut Beh)| for s in &mut p.streams { for b in s.svc.values_mut() { f(b) } };
    match prop {
        "P07" => {
            let n: usize = what.split("stream ").nth(1)?.split(|c: char| !c.is_ascii_digit()).next()?.parse().ok()?;
            if p.streams.len() < 2 || n >= p.streams.len() { return None }
            p.streams = vec![p.streams[n].clone()];
        }
        "P08" => for s in &mut p.streams { s.splits.clear(); s.bare_eos = false; s.trailers = false; },
        "P09" => for s in &mut p.streams { s.upstream.splits.clear(); s.upstream.bare_eos = false; s.upstream.trailers = false; },
        "P10" => fast(&mut p, &|b| b.latency = 0),
        "P06" => fast(&mut p, &|b| b.latency = 1),
        "P03" => { for s in &mut p.streams { s.faults.clear(); } p.transient.clear(); fast(&mut p, &|b| if !matches!(b.out, Out::Ok { .. }) { b.out = Out::Ok { code: 1, tag: "tag".into(), hdrs: vec![] } }) }
        "P18" => { for s in &mut p.streams { s.faults.clear(); } p.transient.clear(); p.tick_fail = 0; }
        "P11" => { if p.cfgs.len() < 2 { return None } let k = p.cfgs.iter().position(|c| c.bad == Bad::No)?; p.cfgs = vec![p.cfgs[k].clone()]; p.cfgs[0].at = 0; }
        "P12" => { if p.desc.is_empty() { return None } p.desc.clear(); }
        "P21" => { if p.streams.iter().all(|s| s.disconnect.is_none()) { return None } for s in &mut p.streams { s.disconnect = None; } }
        _ => return None,
    }
    if p == *plan { None } else { Some(p) }
}

fn pick(s: &Seen, plan: &Plan, prop: &str) -> Option<(String, u64)> {
    let whole = |w: &str| w.starts_with("TRAP") || w.starts_with("the module panicked");
    if let Some(v) = s.viol.iter().find(|v| v.0.contains(prop) || whole(&v.2)) { return Some((v.2.clone(), v.1)) }
    let v = s.viol.first()?;
    let q = without(plan, prop, &v.2)?;
    let r = isolated(&q);
    if r.harness.is_none() && r.viol.is_empty() { Some((v.2.clone(), v.1)) } else { None }
}

fn first(plan: &Plan, prop: &str) -> Option<(String, u64, String)> {
    let s = isolated(plan);
    let (w, t) = pick(&s, plan, prop)?;
    Some((w, t, s.j["d"].as_str().unwrap_or("0").to_string()))
}

// ---------------------------------------------------------------- worker

fn limits() {
    unsafe {
        let m = libc::rlimit { rlim_cur: 4 << 30, rlim_max: 4 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &m);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
}

/// worker <prop> <seed> <from> <step> <until> <secs>
pub fn worker(a: &[String]) {
    limits();
    let prop = a[0].as_str();
    let n: Vec<u64> = a[1..6].iter().map(|s| s.parse().unwrap()).collect();
    let (seed, from, step, until, secs) = (n[0], n[1], n[2], n[3], n[4]);
    let t0 = Instant::now();
    let out = std::io::stdout();
    let mut bad = 0;
    let mut i = from;
    while i < until && t0.elapsed().as_secs() < secs {
        writeln!(out.lock(), "@{i}").unwrap();
        let plan = plan_of(prop, seed, i);
        let r = isolated(&plan);
        let j = match &r.harness {
            Some(e) => json!({"i": i, "harness": e}),
            None => {
                let mut j = r.j.clone();
                let v = pick(&r, &plan, prop);
                if v.is_some() { bad += 1; }
                j["i"] = json!(i);
                j["nt"] = json!(r.j["nt"].as_array().is_some_and(|a| a.iter().any(|x| x == prop)));
                j["o"] = json!(if v.is_none() { r.viol.len() } else { 0 });
                j["v"] = json!(v.iter().map(|(w, t)| json!({"what": w, "t": t})).collect::<Vec<_>>());
                j
            }
        };
        writeln!(out.lock(), "{j}").unwrap();
        if bad >= 4 { break }
        i += step;
    }
    writeln!(out.lock(), "end").unwrap();
}

// ---------------------------------------------------------------- minimisation

fn removals(v: &J, path: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    // every array element and every non-default scalar below the plan's own lists, outermost first
    match v {
        J::Array(a) => for (i, e) in a.iter().enumerate().rev() { path.push(i.to_string()); out.push(path.clone()); removals(e, path, out); path.pop(); },
        J::Object(o) => for (k, e) in o { path.push(k.clone()); removals(e, path, out); path.pop(); },
        _ => {}
    }
}
fn removed(v: &J, path: &[String]) -> Option<J> {
    let mut r = v.clone();
    let mut cur = &mut r;
    for p in &path[..path.len() - 1] { cur = match cur { J::Array(a) => a.get_mut(p.parse::<usize>().ok()?)?, J::Object(o) => o.get_mut(p)?, _ => return None }; }
    let a = cur.as_array_mut()?;
    let i: usize = path.last()?.parse().ok()?;
    if i >= a.len() { return None }
    a.remove(i);
    Some(r)
}

/// Drops streams, configurations, action sets, actions, chunks and faults as long as the same kind of violation stays.
pub fn shrink(plan: &Plan, prop: &str, what: &str, budget: Duration) -> (Plan, u64) {
    let t0 = Instant::now();
    let want = class(what);
    let mut tries = 0;
    let mut best = plan.clone();
    let ok = |p: &Plan, tries: &mut u64| { *tries += 1; matches!(first(p, prop), Some((w, _, _)) if class(&w) == want) };
    // structural edits first
    loop {
        if t0.elapsed() > budget { break }
        let mut cand: Vec<Plan> = vec![];
        for i in (0..best.streams.len()).rev() { let mut p = best.clone(); p.streams.remove(i); cand.push(p); }
        for i in (1..best.cfgs.len()).rev() { let mut p = best.clone(); p.cfgs.remove(i); cand.push(p); }
        for i in (0..best.transient.len()).rev() { let mut p = best.clone(); p.transient.remove(i); cand.push(p); }
        if !best.desc.is_empty() { let mut p = best.clone(); p.desc.clear(); cand.push(p); }
        if best.cfgs.iter().any(|c| c.fresh) { let mut p = best.clone(); for c in &mut p.cfgs { c.fresh = false; } cand.push(p); }
        if best.tick_fail > 0 { let mut p = best.clone(); p.tick_fail = 0; cand.push(p); }
        for c in 0..best.cfgs.len() {
            for i in (0..best.cfgs[c].sets.len()).rev() { let mut p = best.clone(); p.cfgs[c].sets.remove(i); cand.push(p); }
            if best.cfgs[c].ident.is_some() { let mut p = best.clone(); p.cfgs[c].ident = None; cand.push(p); }
            if best.cfgs[c].tracing { let mut p = best.clone(); p.cfgs[c].tracing = false; cand.push(p); }
            if !best.cfgs[c].request_data.is_empty() { let mut p = best.clone(); p.cfgs[c].request_data.clear(); cand.push(p); }
            for s in 0..best.cfgs[c].sets.len() {
                // from the end: action ids are positions
                if !best.cfgs[c].sets[s].acts.is_empty() { let mut p = best.clone(); p.cfgs[c].sets[s].acts.pop(); cand.push(p); }
                for k in 0..best.cfgs[c].sets[s].preds.len() { let mut p = best.clone(); p.cfgs[c].sets[s].preds.remove(k); cand.push(p); }
            }
        }
        for s in 0..best.streams.len() {
            let st = &best.streams[s];
            if st.disconnect.is_some() { let mut p = best.clone(); p.streams[s].disconnect = None; cand.push(p); }
            for i in 0..st.faults.len() { let mut p = best.clone(); p.streams[s].faults.remove(i); cand.push(p); }
            for i in (0..st.splits.len()).rev() { let mut p = best.clone(); p.streams[s].splits.remove(i); cand.push(p); }
            for i in (0..st.upstream.splits.len()).rev() { let mut p = best.clone(); p.streams[s].upstream.splits.remove(i); cand.push(p); }
            if st.trailers { let mut p = best.clone(); p.streams[s].trailers = false; cand.push(p); }
            if st.bare_eos { let mut p = best.clone(); p.streams[s].bare_eos = false; cand.push(p); }
            if st.upstream.trailers { let mut p = best.clone(); p.streams[s].upstream.trailers = false; cand.push(p); }
            if st.upstream.bare_eos { let mut p = best.clone(); p.streams[s].upstream.bare_eos = false; cand.push(p); }
            if st.upstream.early { let mut p = best.clone(); p.streams[s].upstream.early = false; cand.push(p); }
            for k in st.svc.keys() {
                let b = &st.svc[k];
                if b.latency > 1 { let mut p = best.clone(); p.streams[s].svc.get_mut(k).unwrap().latency = 1; cand.push(p); }
                if let Out::Ok { hdrs, .. } = &b.out { if !hdrs.is_empty() { let mut p = best.clone(); if let Out::Ok { hdrs, .. } = &mut p.streams[s].svc.get_mut(k).unwrap().out { hdrs.clear() } cand.push(p); } }
            }
        }
        let mut progress = false;
        for p in cand {
            if t0.elapsed() > budget { break }
            if p.streams.is_empty() && !best.streams.is_empty() && !matches!(prop, "P11" | "P12" | "P18") { continue }
            if ok(&p, &mut tries) { best = p; progress = true; break }
        }
        if !progress { break }
    }
    // then the leaves: children of replies, header lists
    let mut v = serde_json::to_value(&best).unwrap();
    let mut paths = vec![];
    removals(&v["cfgs"], &mut vec!["cfgs".into()], &mut paths);
    for p in paths.iter().filter(|p| p.iter().any(|x| x == "on_reply" || x == "items" || x == "headers" || x == "cond" || x == "svcs")) {
        if t0.elapsed() > budget { break }
        let Some(c) = removed(&v, p) else { continue };
        let Ok(q) = serde_json::from_value::<Plan>(c.clone()) else { continue };
        if ok(&q, &mut tries) { v = c; best = q; }
    }
    (best, tries)
}

// ---------------------------------------------------------------- parent

struct Found { plan: Plan, what: String, t: u64, index: u64, trap: bool }

#[derive(Default)]
struct Tot { runs: u64, events: u64, hostcalls: u64, sim_ms: u64, modelled: u64, skipped: u64, streams: u64, calls: u64, nontrivial: BTreeSet<String>, shapes: BTreeSet<String>, faults: BTreeMap<String, u64>, profiles: BTreeMap<String, u64>, other: u64, digests: Vec<(u64, String)> }

fn own_exe() -> std::path::PathBuf { std::env::current_exe().unwrap() }

/// Reads findings the maintainers know of: `known: property=P02 plan=<file> match=<text> what=<text>`
fn known(root: &str, prop: &str) -> Vec<(String, String, String)> {
    let t = std::fs::read_to_string(format!("{root}/known-findings.txt")).unwrap_or_default();
    t.lines().filter(|l| l.starts_with(&format!("known: property={prop} "))).filter_map(|l| {
        let plan = l.split("plan=").nth(1)?.split_whitespace().next()?.to_string();
        let m = l.split("match=\"").nth(1)?.split('"').next()?.to_string();
        let w = l.split("what=").nth(1)?.to_string();
        Some((plan, m, w))
    }).collect()
}

pub fn check(prop: &str, tier: &str, seed: u64, root: &str) -> i32 {
    let t0 = Instant::now();
    let Some(mixes) = mix(prop) else { eprintln!("no such property {prop}"); return 2 };
    let env = |k: &str| std::env::var(k).ok().and_then(|s| s.parse::<u64>().ok());
    let quick = tier != "thorough";
    let runs = env("SIM_RUNS").unwrap_or(if quick { 6400 } else { 4_000_000 });
    let secs = env("SIM_SECS").unwrap_or(if quick { 180 } else { 780 });
    let nw = env("SIM_WORKERS").unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4)).max(1);
    let (tx, rx) = mpsc::channel::<(u64, Option<String>)>();
    let spawn = |k: u64, from: u64, left: u64| {
        let mut c = Command::new(own_exe()).arg("worker").arg(prop).arg(seed.to_string()).arg(from.to_string()).arg(nw.to_string()).arg(runs.to_string()).arg(left.to_string())
            .stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("worker");
        let out = c.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || { for l in BufReader::new(out).lines().map_while(Result::ok) { if tx.send((k, Some(l))).is_err() { return } } let _ = tx.send((k, None)); });
        c
    };
    let mut ch: Vec<Option<std::process::Child>> = (0..nw).map(|k| Some(spawn(k, k, secs))).collect();
    let mut at: Vec<(Option<u64>, Instant, bool)> = vec![(None, Instant::now(), false); nw as usize];
    let mut tot = Tot::default();
    let mut found: Vec<Found> = vec![];
    let mut harness: Vec<String> = vec![];
    let mut live = nw;
    while live > 0 {
        match rx.recv_timeout(Duration::from_secs(1)) {
            Ok((k, Some(l))) => {
                let w = &mut at[k as usize];
                w.1 = Instant::now();
                if let Some(i) = l.strip_prefix('@') { w.0 = i.parse().ok(); continue }
                if l == "end" { w.2 = true; continue }
                w.0 = None;
                let Ok(j) = serde_json::from_str::<J>(&l) else { continue };
                let i = j["i"].as_u64().unwrap_or(0);
                tot.runs += 1;
                if let Some(e) = j["harness"].as_str() { harness.push(format!("run {i}: {e}")); continue }
                let n = |k: &str| j[k].as_u64().unwrap_or(0);
                tot.events += n("ev"); tot.hostcalls += n("hc"); tot.sim_ms += n("ms"); tot.modelled += n("m"); tot.skipped += n("k"); tot.streams += n("st"); tot.calls += n("c"); tot.other += n("o");
                *tot.profiles.entry(j["p"].as_str().unwrap_or("").to_string()).or_default() += 1;
                let s = j["s"].as_str().unwrap_or("").to_string();
                if j["nt"] == true { tot.nontrivial.insert(s.clone()); }
                tot.shapes.insert(s);
                if let Some(f) = j["f"].as_object() { for (k, v) in f { *tot.faults.entry(k.clone()).or_default() += v.as_u64().unwrap_or(0); } }
                if tot.digests.len() < 64 || i % 97 == 0 { tot.digests.push((i, j["d"].as_str().unwrap_or("").to_string())); }
                if let Some(v) = j["v"].as_array().and_then(|v| v.first()) {
                    found.push(Found { plan: plan_of(prop, seed, i), what: v["what"].as_str().unwrap_or("").into(), t: v["t"].as_u64().unwrap_or(0), index: i, trap: false });
                }
            }
            Ok((k, None)) => {
                let st = ch[k as usize].take().map(|mut c| c.wait());
                let (cur, _, ended) = at[k as usize];
                live -= 1;
                if !ended {
                    match cur {
                        // the process died inside a run: the module took it down
                        Some(i) => found.push(Found { plan: plan_of(prop, seed, i), what: format!("TRAP: the module did not survive ({st:?})"), t: 0, index: i, trap: true }),
                        None => harness.push(format!("worker {k} ended early: {st:?}")),
                    }
                }
            }
            Err(_) => {}
        }
        for k in 0..nw as usize {
            if let Some(c) = ch[k].as_mut() {
                if at[k].0.is_some() && at[k].1.elapsed() > Duration::from_secs(40) {
                    let i = at[k].0.unwrap();
                    found.push(Found { plan: plan_of(prop, seed, i), what: "TRAP: a callback does not return".into(), t: 0, index: i, trap: true });
                    at[k].2 = true;
                    let _ = c.kill();
                }
            }
        }
        if found.len() >= 12 { for c in ch.iter_mut().flatten() { let _ = c.kill(); } for w in at.iter_mut() { w.2 = true; } }
    }
    let search_s = t0.elapsed().as_secs_f64();

    // determinism: the same seeds again, in another process and another order
    let mut redone = 0;
    if found.is_empty() {
        let mut d = tot.digests.clone();
        d.sort();
        let stepby = (d.len() / if quick { 24 } else { 200 }).max(1);
        let pick: Vec<(u64, String)> = d.into_iter().step_by(stepby).collect();
        let idx: Vec<String> = pick.iter().rev().map(|(i, _)| i.to_string()).collect();
        match Command::new(own_exe()).arg("digests").arg(prop).arg(seed.to_string()).args(&idx).stderr(Stdio::null()).output() {
            Ok(o) => {
                let got: BTreeMap<u64, String> = String::from_utf8_lossy(&o.stdout).lines().filter_map(|l| { let (a, b) = l.split_once(' ')?; Some((a.parse().ok()?, b.to_string())) }).collect();
                for (i, dg) in &pick {
                    redone += 1;
                    if got.get(i) != Some(dg) { harness.push(format!("run {i} is not repeatable: {dg} then {:?}", got.get(i))); }
                }
            }
            Err(e) => harness.push(format!("digest process: {e}")),
        }
    }

    // findings already known
    for (file, m, what) in known(root, prop) {
        let Ok(b) = std::fs::read(format!("{root}/{file}")) else { harness.push(format!("{file} is missing")); continue };
        let Ok(p) = serde_json::from_slice::<Plan>(&b) else { harness.push(format!("{file} does not parse")); continue };
        let r = isolated(&p);
        if let Some(e) = &r.harness { harness.push(format!("{file}: {e}")); continue }
        let vs: Vec<_> = r.viol.iter().filter(|v| v.0.contains(prop) || v.2.starts_with("TRAP")).collect();
        if vs.iter().any(|v| v.2.contains(&m)) { println!("KNOWN-FINDING: property={prop} {what}"); }
        if let Some(v) = vs.iter().find(|v| !v.2.contains(&m)) { found.push(Found { plan: p, what: v.2.clone(), t: v.1, index: u64::MAX, trap: false }); }
    }

    let mut code = 0;
    let mut reported = 0;
    let rdir = format!("{root}/replays");
    let _ = std::fs::create_dir_all(&rdir);
    found.sort_by_key(|f| (f.trap, f.plan.streams.len(), f.index));
    let mut seen = BTreeSet::new();
    for f in &found {
        if !seen.insert(class(&f.what)) || reported >= 3 { continue }
        let (plan, tries) = if f.trap { (f.plan.clone(), 0) } else { shrink(&f.plan, prop, &f.what, Duration::from_secs(if quick { 25 } else { 90 })) };
        let (what, t, digest) = if f.trap { (f.what.clone(), 0, "0".to_string()) } else { first(&plan, prop).unwrap_or((f.what.clone(), f.t, "0".into())) };
        let file = format!("{rdir}/{prop}-{seed}-{}.json", f.index);
        let doc = json!({"property": prop, "seed": seed, "run": f.index, "violation": what, "at_ms": t, "digest": digest, "shrink_tries": tries, "plan": plan});
        std::fs::write(&file, serde_json::to_string_pretty(&doc).unwrap()).unwrap();
        // it must fail the same way in a fresh process
        if !f.trap {
            let again = Command::new(own_exe()).arg("replay").arg(&file).stdout(Stdio::piped()).stderr(Stdio::null()).output();
            match again {
                Ok(o) if o.status.code() == Some(1) && String::from_utf8_lossy(&o.stdout).contains(&format!("digest {digest} ")) => {}
                _ => { harness.push(format!("replay of {file} does not reproduce")); continue }
            }
        }
        println!("{}", what.chars().take(600).collect::<String>());
        println!("minimised to {} stream(s), {} configuration(s) in {tries} executions; violated at simulated ms {t}", plan.streams.len(), plan.cfgs.len());
        println!("VIOLATION property={prop} replay={file}");
        reported += 1;
        code = 1;
    }
    let wall = t0.elapsed().as_secs_f64();
    let samples: Vec<J> = (0..3u64).map(|i| { let p = plan_of(prop, seed, i); json!({"run": i, "profile": p.profile, "plan_seed": p.seed, "plan": p}) }).collect();
    let samples: Vec<J> = samples.into_iter().map(|s| { let t = s.to_string(); if t.len() < 40_000 { s } else { json!({"run": s["run"], "profile": s["profile"], "plan_seed": s["plan_seed"], "streams": s["plan"]["streams"]}) } }).collect();
    let ev = json!({
        "property": prop, "tier": if quick { "quick" } else { "thorough" }, "seed": seed, "level": "exploration", "wall_s": wall, "violations": reported,
        "coverage": {
            "evaluations": tot.runs,
            "distinct_nontrivial": tot.nontrivial.len(),
            "rule": format!("A case is one simulated execution: configurations, client streams, upstream and service behaviour, host faults and all their times expanded from one seed (profiles {mixes:?}). It counts as distinct by its interleaving fingerprint (sequence of callbacks over all streams, calls made, replies and their outcomes, pauses), and as non-trivial when the execution contains the situation {prop} is about (note_nontrivial in check.rs)."),
            "samples": samples,
            "distinct_interleavings": tot.shapes.len(),
            "interleaving_measure": "fingerprint of the sequence of (stream, callback, pause state, calls made, local replies, call outcome)",
            "requests_simulated": tot.streams,
            "grpc_calls": tot.calls,
            "callbacks": tot.events,
            "hostcalls": tot.hostcalls,
            "simulated_time_s": tot.sim_ms / 1000,
            "runs_per_hour_one_seed_each": (tot.runs as f64 / search_s * 3600.0) as u64,
            "faults_injected": tot.faults,
            "runs_per_profile": tot.profiles,
            "requests_compared_with_model": tot.modelled,
            "requests_checked_without_model": tot.skipped,
            "runs_repeated_for_determinism": redone,
            "violations_of_other_properties_seen": tot.other,
            "workers": nw,
            "real_components": ["kuadrant-filter crate", "wasm-shim crate (root and HTTP contexts, host adapter)", "proxy-wasm SDK 0.2.5 dispatcher, host call wrappers, logger (host calls return a Result, as in the fork used)", "cel, prost-reflect, acutejson, opentelemetry SDK"],
            "stub_components": ["Envoy: the proxy_* host imports and the proxy_on_* callbacks", "upstream, auth, rate-limit, dynamic, descriptor and trace services", "client", "clock and randomness (getrandom, clock_gettime)"],
        },
        "assumptions": ["the simulated host follows Envoy's proxy-wasm behaviour: one callback at a time, data frames appended to the buffer while paused, calls answered once or timed out, no callbacks after a local reply except those of the reply itself", "the code behaves natively (x86-64) as it does compiled to wasm32"],
    });
    let _ = std::fs::create_dir_all(format!("{root}/evidence"));
    std::fs::write(format!("{root}/evidence/{prop}.json"), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!("{prop}: {} runs, {} requests, {} distinct interleavings ({} non-trivial), {:.1} s", tot.runs, tot.streams, tot.shapes.len(), tot.nontrivial.len(), wall);
    if code == 0 && !harness.is_empty() { for h in harness.iter().take(5) { eprintln!("HARNESS {h}"); println!("HARNESS {h}"); } return 2 }
    if code == 0 && tot.runs == 0 { println!("HARNESS nothing ran"); return 2 }
    code
}

pub fn digests(a: &[String]) {
    let seed: u64 = a[1].parse().unwrap();
    for i in &a[2..] {
        let i: u64 = i.parse().unwrap();
        let r = isolated(&plan_of(&a[0], seed, i));
        println!("{i} {}", r.j["d"].as_str().unwrap_or("-"));
    }
}

/// Exit 1 when the file's violation happens again.
pub fn replay(file: &str, verbose: bool) -> i32 {
    let j: J = match std::fs::read(file).ok().and_then(|b| serde_json::from_slice(&b).ok()) { Some(j) => j, None => { eprintln!("cannot read {file}"); return 2 } };
    let pj = if j.get("plan").is_some() { j["plan"].clone() } else { j.clone() };
    let plan: Plan = match serde_json::from_value(pj) { Ok(p) => p, Err(e) => { eprintln!("{e}"); return 2 } };
    let prop = j["property"].as_str().unwrap_or("").to_string();
    if verbose { match execute(&plan) { Ok(r) => crate::history(&r), Err(e) => println!("HARNESS {e}") } }
    let r = isolated(&plan);
    if let Some(e) = &r.harness { println!("HARNESS {e}"); return 2 }
    println!("digest {} events {} hostcalls {}", r.j["d"].as_str().unwrap_or("0"), r.j["ev"], r.j["hc"]);
    for v in &r.viol { println!("t={} {:?} {}", v.1, v.0, v.2); }
    let bad = if prop.is_empty() { !r.viol.is_empty() } else { pick(&r, &plan, &prop).is_some() };
    if bad && !prop.is_empty() { println!("VIOLATION property={prop} replay={file}"); }
    bad as i32
}
