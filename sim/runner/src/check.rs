//! Checks over the recorded history of a run.
use crate::host::*;
use crate::model::*;
use crate::plan::*;
use crate::wire::*;
use opentelemetry_proto::tonic::collector::trace::v1::ExportTraceServiceRequest;
use prost::Message;
use std::collections::{BTreeMap, BTreeSet};

fn md<'a>(c: &'a Call, k: &str) -> Option<&'a str> { c.md.iter().find(|(a, _)| a == k).and_then(|(_, v)| std::str::from_utf8(v).ok()) }

pub struct Summary {
    pub viol: Vec<Viol>,
    /// (stream, callback kinds and outcomes) shape of the execution: the measure of distinct interleavings
    pub shape: u64,
    pub modelled: u64,
    pub skipped: u64,
    pub nontrivial: BTreeSet<&'static str>,
}

fn actual_pay(c: &Call, want: &Pay) -> Option<Pay> {
    Some(match want {
        Pay::Dyn(_) => Pay::Dyn(DynReq::read(&c.cluster, &c.method, &c.payload)?),
        Pay::Rl(_) => Pay::Rl(RlReq::decode(&c.payload[..]).ok()?),
        Pay::Auth(_) => {
            let mut r = AuthReq::decode(&c.payload[..]).ok()?;
            // no metadata and empty metadata are the same to an authorisation service
            if let Some(a) = r.attributes.as_mut() { if a.meta.as_ref().is_some_and(|m| m.fields.is_empty()) { a.meta = None; } }
            Pay::Auth(Box::new(r))
        }
    })
}

fn sorted_hdrs(h: &Hdrs) -> Hdrs { h.clone() }

/// Why a candidate does not explain what happened: properties and text. Empty: it does.
fn explain(m: &M, w: &W, s: &S, fx: &Eff, rec: &Rec, exprs: &Uses) -> Vec<(Vec<&'static str>, String)> {
    let mut d: Vec<(Vec<&'static str>, String)> = vec![];
    let real: Vec<&Call> = rec.disp.iter().map(|&i| &w.calls[i]).filter(|c| c.kind != CallKind::Export).collect();
    for (i, x) in fx.disp.iter().enumerate() {
        match real.get(i) {
            None => {
                let mut p = vec!["P05", "P14"];
                if !m.unresolved.is_empty() { p.push("P12"); }
                if exprs.legacy { p.push("P19"); }
                p.extend(exprs.of(&x.act));
                if m.guard_acts().contains(&x.act) { p.push("P01"); }
                if i == 0 { p.push("P04"); }
                d.push((p, format!("call of action {} was not made", x.act)));
                break;
            }
            Some(c) => {
                if c.act != x.act { d.push((vec!["P05", "P07", "P14"], format!("call of action {} where {} was due", c.act, x.act))); break }
                if c.cluster != x.cluster || c.service != x.service || c.method != x.method || c.timeout_ms != x.timeout_ms {
                    d.push((vec!["P05"], format!("action {} called {}/{}/{} timeout {} ms, configured {}/{}/{} timeout {} ms", x.act, c.cluster, c.service, c.method, c.timeout_ms, x.cluster, x.service, x.method, x.timeout_ms)));
                }
                let got = actual_pay(c, &x.pay);
                if got.as_ref() != Some(&x.pay) {
                    let mut p = exprs.of(&x.act);
                    match &x.pay { Pay::Dyn(e) => { if let Some(Pay::Dyn(g)) = &got { if g.sid != e.sid { p.push("P07"); } if g.a == e.b && g.b == e.a { p.push("P12"); } } else { p.push("P05"); } } _ => p.push("P19") }
                    if p.is_empty() { p.push("P05"); }
                    d.push((p, format!("action {} sent {:?}, expected {:?}", x.act, got, x.pay)));
                }
                if c.failed != x.failed { d.push((vec!["P05"], "dispatch outcome".into())); }
            }
        }
    }
    if real.len() > fx.disp.len() && d.is_empty() {
        let c = real[fx.disp.len()];
        let mut p = vec!["P05", "P14"];
        if exprs.legacy { p.push("P19"); }
        p.extend(exprs.of(&c.act));
        if !m.unresolved.is_empty() { p.push("P12"); }
        if m.is_terminated(s) { p.push("P02"); p.push("P03"); }
        d.push((p, format!("call of action {} that is not due", c.act)));
    }
    let reps: Vec<LocalReply> = rec.replies.clone();
    if reps != fx.replies {
        let mut p = vec!["P02"];
        if reps.is_empty() && !m.guard_acts().is_empty() { p.push("P01"); }
        if reps.iter().chain(&fx.replies).any(|r| r.status == 500) { p.push("P03"); }
        let dyn_only = !fx.disp.iter().any(|x| !matches!(x.pay, Pay::Dyn(_)));
        if exprs.legacy || !dyn_only { p.push("P19"); }
        if exprs.any_var { p.push("P06"); }
        if exprs.any_reqbody { p.push("P08"); }
        d.push((p, format!("local replies {:?}, expected {:?}", short(&reps), short(&fx.replies))));
    }
    let props: Vec<(String, Vec<u8>)> = rec.props.iter().map(|(p, v)| (p.join("."), v.clone())).collect();
    let want: Vec<(String, Vec<u8>)> = fx.props.clone();
    let same = props.len() == want.len() && props.iter().zip(&want).all(|(a, b)| a.0 == b.0 && (a.1 == b.1 || same_struct(&a.1, &b.1)));
    if !same { d.push((vec!["P20"], format!("values exported to the host {props:?}, expected {want:?}"))); }
    let nz = |m: &BTreeMap<String, i64>| m.iter().filter(|(_, v)| **v != 0).map(|(k, v)| (k.clone(), *v)).collect::<BTreeMap<_, _>>();
    if nz(&rec.metrics) != nz(&fx.metrics) {
        d.push((vec!["P13"], format!("metrics moved by {:?}, expected {:?}", nz(&rec.metrics), nz(&fx.metrics))));
    }
    let (hq, hr) = m.holds(s, rec);
    if let Some(h) = hq {
        if h != rec.held_req {
            let p = if h { vec!["P01"] } else { vec!["P04", "P10"] };
            d.push((p, format!("request {} here, expected {}", if rec.held_req { "held" } else { "released" }, if h { "held" } else { "released" })));
        }
    }
    if let Some(h) = hr {
        if h != rec.held_resp {
            let g = m.guard_in_flight(s);
            let p = if h { if g { vec!["P01", "P09"] } else { vec!["P09"] } } else { vec!["P10", "P04"] };
            d.push((p, format!("response {} here, expected {}", if rec.held_resp { "held" } else { "released" }, if h { "held" } else { "released" })));
        }
    }
    if m.is_terminated(s) && rec.held_req && !rec.held_resp && m.in_flight(s) == 0 && matches!(rec.cb, Cb::Reply { .. }) { /* covered by completion */ }
    let (q, r) = m.headers(s);
    if let Some(h) = &rec.req_hdrs { if sorted_hdrs(h) != q && !m.is_terminated(s) { d.push((hdr_props("P15", exprs), format!("request headers are {h:?}, expected {q:?}"))); } }
    if let (Some(h), Some(r)) = (&rec.resp_hdrs, r) { if !m.is_terminated(s) && sorted_hdrs(h) != r { d.push((hdr_props("P15", exprs), format!("response headers are {h:?}, expected {r:?}"))); } }
    d
}
fn hdr_props(p: &'static str, u: &Uses) -> Vec<&'static str> { let mut v = vec![p]; if u.legacy { v.push("P19"); } if u.any_var { v.push("P06"); } v }
fn same_struct(a: &[u8], b: &[u8]) -> bool { match (prost_types::Struct::decode(a), prost_types::Struct::decode(b)) { (Ok(x), Ok(y)) => x == y && !x.fields.is_empty(), _ => false } }
fn short(r: &[LocalReply]) -> Vec<(u32, Hdrs, String)> { r.iter().map(|r| (r.status, r.headers.clone(), String::from_utf8_lossy(&r.body).into_owned())).collect() }

/// What each action's inputs are made of, to say which property a wrong value bears on.
#[derive(Default)]
pub struct Uses { by: BTreeMap<String, BTreeSet<&'static str>>, legacy: bool, any_var: bool, any_reqbody: bool }
impl Uses {
    fn of(&self, a: &str) -> Vec<&'static str> { self.by.get(a).map(|s| s.iter().copied().collect()).unwrap_or_default() }
    fn add(&mut self, id: &str, e: &Expr, set: &Set) {
        match e {
            Expr::ReqBody(_) => { self.by.entry(id.into()).or_default().insert("P08"); self.any_reqbody = true }
            Expr::RespBody(_) => { self.by.entry(id.into()).or_default().insert("P09"); }
            Expr::Tag(_) | Expr::Code(_) | Expr::Rep(..) => { self.by.entry(id.into()).or_default().insert("P06"); self.any_var = true }
            Expr::Stored(p) => {
                self.by.entry(id.into()).or_default().insert("P20");
                let mut hit = vec![];
                fn stores<'a>(t: &'a Typed, p: &str, out: &mut Vec<&'a Expr>) { match &t.op { Op::Store { path, value, .. } if path == p => out.push(value), Op::Grpc { on_reply, .. } => for c in on_reply { stores(c, p, out) }, _ => {} } }
                for a in &set.acts { if let Act::T(t) = a { stores(t, p, &mut hit) } }
                let v: Vec<Expr> = hit.into_iter().cloned().collect();
                for e in v { e.walk(&mut |x| match x { Expr::ReqBody(_) => { self.by.entry(id.into()).or_default().insert("P08"); } Expr::RespBody(_) => { self.by.entry(id.into()).or_default().insert("P09"); } Expr::Tag(_) | Expr::Rep(..) => { self.by.entry(id.into()).or_default().insert("P06"); } _ => {} }); }
            }
            _ => {}
        }
    }
    fn typed(&mut self, id: &str, t: &Typed, set: &Set) {
        let mut v: Vec<Expr> = vec![];
        t.pred.walk(&mut |e| v.push(e.clone()));
        let mut f = |e: &Expr| e.walk(&mut |x| v.push(x.clone()));
        match &t.op {
            Op::Grpc { a, b, on_reply, .. } => { f(a); f(b); for (i, c) in on_reply.iter().enumerate() { self.typed(&format!("{id}.{i}"), c, set) } }
            Op::Deny { headers, body, .. } => { for (_, e) in headers { f(e) } f(body) }
            Op::Headers { items, .. } => for (_, e) in items { f(e) },
            Op::Store { value, .. } => f(value),
            Op::Fail => {}
        }
        for e in v { self.add(id, &e, set); }
    }
    pub fn new(set: Option<&Set>, request_data: &[(String, Expr)]) -> Uses {
        let mut u = Uses::default();
        if let Some(set) = set {
            for (i, a) in set.acts.iter().enumerate() {
                match a {
                    Act::T(t) => u.typed(&i.to_string(), t, set),
                    Act::L(l) => {
                        u.legacy = true;
                        u.by.entry(i.to_string()).or_default().insert("P19");
                        let mut resp = false;
                        if let Some(h) = &l.hits { h.walk(&mut |e| if matches!(e, Expr::RespBody(_)) { resp = true }); }
                        let mut req = false;
                        let mut f = |e: &Expr| if matches!(e, Expr::ReqBody(_)) { req = true };
                        for p in l.preds.iter().chain(l.cond.iter().flat_map(|c| &c.preds)) { p.walk(&mut |e| f(e)); }
                        for (_, e) in l.cond.iter().flat_map(|c| &c.data).chain(request_data) { e.walk(&mut |e| f(e)); }
                        if req { u.by.entry(i.to_string()).or_default().insert("P08"); u.any_reqbody = true; }
                        if resp { u.by.entry(i.to_string()).or_default().insert("P09"); }
                    }
                }
            }
        }
        u
    }
}

impl<'a> M<'a> {
    pub fn guard_acts(&self) -> BTreeSet<String> { match self.w.st[self.s].cfg { Some(c) => guards(self.plan, c, self.s), None => BTreeSet::new() } }
}

/// The request id the stream's calls carried.
fn stream_id(w: &W, s: usize) -> Option<String> {
    let p = &w.plan.streams[s];
    if let Some((_, v)) = p.headers.iter().find(|(k, _)| k == "x-request-id") { return Some(lossy(v)) }
    if let Some(v) = w.calls.iter().filter(|c| c.stream == Some(s)).find_map(|c| md(c, "x-request-id")) { return Some(v.to_string()) }
    // without a call: what the tracking header says
    let h = w.st[s].cfg.and_then(|c| w.plan.cfgs[c].ident.clone())?;
    let from = |hd: &Hdrs| hd.iter().find(|(k, _)| *k == h).map(|(_, v)| v.clone());
    w.recs.iter().filter(|r| r.stream == s).find_map(|r| r.replies.first().and_then(|l| from(&l.headers)).or_else(|| r.resp_hdrs.as_ref().and_then(from)))
}

/// The trace context the request came with, if it is one: trace, parent, flags
fn trace_context(p: &Stream) -> Option<(String, String, String)> {
    let (_, v) = p.headers.iter().find(|(k, _)| k == "traceparent")?;
    let f: Vec<&str> = v.split('-').collect();
    let hex = |s: &str, n: usize| s.len() == n && s.bytes().all(|b| b.is_ascii_digit() || (b'a'..=b'f').contains(&b));
    let nz = |s: &str| s.bytes().any(|b| b != b'0');
    (f.len() == 4 && f[0] == "00" && hex(f[1], 32) && hex(f[2], 16) && hex(f[3], 2) && nz(f[1]) && nz(f[2])).then(|| (f[1].into(), f[2].into(), f[3].into()))
}

pub fn analyse(w: &W) -> Summary {
    let mut viol: Vec<Viol> = w.viol.clone();
    let mut add = |props: Vec<&'static str>, t: u64, what: String| { let mut p = props; p.sort_unstable(); p.dedup(); viol.push(Viol { props: p, t, what }) };
    let plan = &w.plan;
    let panicked = w.viol.iter().any(|v| v.props.contains(&"P18"));
    let overrun = w.viol.iter().any(|v| v.what.contains("step budget"));
    let (mut modelled, mut skipped) = (0, 0);
    let mut nt: BTreeSet<&'static str> = BTreeSet::new();

    let mut over: BTreeSet<usize> = BTreeSet::new();
    // ---- reference model, stream by stream
    if plan.exact && !panicked {
        for s in 0..plan.streams.len() {
            let st = &w.st[s];
            if !st.created { continue }
            let Some(ci) = st.cfg else {
                let hidden = plan.streams[s].faults.iter().any(|f| f == "prop:request.host" || f == "get_property") || !plan.transient.is_empty();
                for r in w.recs.iter().filter(|r| r.stream == s && !hidden) {
                    if !r.disp.is_empty() || !r.replies.is_empty() || r.held_req || r.held_resp { add(vec!["P11", "P22"], r.t, format!("stream {s}: policy acted although no configuration had been accepted")); }
                }
                continue
            };
            let cfg = &plan.cfgs[ci];
            let p = &plan.streams[s];
            let set = match select(cfg, p) { Sel::Set(x) => Some(x), _ => None };
            // services whose types arrive mid-request: the outcome depends on the instant
            if st.desc_changed { skipped += 1; continue }
            modelled += 1;
            let uses = Uses::new(set, &cfg.request_data);
            let m = M { plan, cfg, s, p, w, id: stream_id(w, s), unresolved: st.unresolved.clone() };
            let mut cand: Vec<S> = vec![m.start()];
            for rec in w.recs.iter().filter(|r| r.stream == s) {
                let mut ok = vec![];
                let mut best: Option<(usize, Vec<(Vec<&'static str>, String)>, String)> = None;
                for c in &cand {
                    for (n, fx) in m.step(c, rec) {
                        let d = explain(&m, w, &n, &fx, rec, &uses);
                        if d.is_empty() { ok.push(n); } else if best.as_ref().map_or(true, |b| d.len() < b.0) { best = Some((d.len(), d, m.describe(&n))); }
                    }
                }
                if ok.len() > 64 { ok.truncate(64); }
                if ok.is_empty() {
                    let (_, d, desc) = best.unwrap_or((0, vec![(vec!["P05"], "no behaviour possible".into())], String::new()));
                    let mut props: Vec<&'static str> = d.iter().flat_map(|x| x.0.clone()).collect();
                    // what a request gets must come from its own action set
                    if matches!(select(cfg, p), Sel::Miss | Sel::Empty) { props.push("P22"); }
                    if w.plan.cfgs.len() > 1 && w.st[s].cfg.is_some() && matches!(rec.cb, Cb::ReqHdr { .. }) { props.push("P11"); }
                    if let Cb::Reply { call } = rec.cb { let c = &w.calls[call]; let st = c.settled.clone().map(|x| x.0).unwrap_or(0); if st != 0 { props.push("P03"); } else if c.plan_bytes.is_empty() || DynRep::decode(&c.plan_bytes[..]).is_err() { props.push("P03"); } props.push("P06"); }
                    if rec.disp.iter().any(|&c| w.calls[c].failed) { props.push("P03"); }
                    if plan.streams[s].faults.len() > 0 { props.push("P03"); }
                    if matches!(rec.cb, Cb::RespBody { .. } | Cb::RespTrl) || matches!(rec.cb, Cb::RespHdr { eos: true, .. }) { if !d.iter().any(|x| x.1.starts_with("metrics")) { props.push("P09"); } }
                    let set_name = set.map(|x| x.name.clone()).unwrap_or("-".into());
                    if matches!(rec.cb, Cb::ReqHdr { .. }) && (plan.cfgs[ci].sets.len() > 1) { props.push("P11"); }
                    add(props, rec.t, format!("stream {s} (set {set_name}) at {:?}: {} [model: {desc}]", rec.cb, d.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join("; ")));
                    cand.clear();
                    break;
                }
                cand = ok;
            }
            // the policy ran to its end: nothing left to run, nothing left to come
            if !cand.is_empty() && cand.iter().all(|c| m.over(c)) { over.insert(s); }
        }
    }

    // ---- completion
    if !panicked && !overrun {
        for (s, st) in w.st.iter().enumerate() {
            if !st.created || !st.alive { continue }
            let out: Vec<String> = w.calls.iter().filter(|c| c.stream == Some(s) && !c.failed && c.settled.is_none()).map(|c| c.act.clone()).collect();
            let mut p = vec!["P04"];
            if st.resp_started { p.push("P10"); if st.resp_eos_seen { p.push("P09"); } }
            if st.local.is_some() { p.push("P02"); }
            add(p, w.now, format!("stream {s} never completes: request {:?} response {:?}, calls outstanding {out:?}", st.req_hold, st.resp_hold));
        }
    }

    // ---- per stream, whatever the faults
    let mut ids: BTreeMap<String, usize> = BTreeMap::new();
    let mut traces: BTreeMap<String, usize> = BTreeMap::new();
    for (s, st) in w.st.iter().enumerate() {
        if !st.created { continue }
        let p = &plan.streams[s];
        let calls: Vec<&Call> = w.calls.iter().filter(|c| c.stream == Some(s)).collect();
        // each action's call at most once
        let mut seen: BTreeSet<&str> = BTreeSet::new();
        for c in calls.iter().filter(|c| c.kind == CallKind::Action) {
            if !seen.insert(&c.act) { add(vec!["P05"], c.t, format!("stream {s}: action {} called its service twice", c.act)); }
            if let Some(ci) = st.cfg {
                let cfg = &plan.cfgs[ci];
                if !cfg.svcs.iter().any(|x| x.endpoint == c.cluster) { add(vec!["P05", "P11"], c.t, format!("stream {s}: call to {} which its configuration does not name", c.cluster)); }
            }
        }
        // its own identity, in every call
        let faulty = |f: &str| p.faults.iter().any(|x| x == f) || plan.transient.iter().any(|(x, _)| x == f);
        let hdr_fault = faulty("get_map");
        let incoming = p.headers.iter().find(|(k, _)| k == "x-request-id").map(|(_, v)| lossy(v));
        let mut own: Option<String> = None;
        for c in &calls {
            match md(c, "x-request-id") {
                None => add(vec!["P16"], c.t, format!("stream {s}: call of {} carries no request id", c.act)),
                Some(v) => {
                    if let Some(i) = &incoming { if v != i && !hdr_fault { add(vec!["P16", "P07"], c.t, format!("stream {s}: call of {} carries request id {v}, the request's is {i}", c.act)); } }
                    match &own { None => own = Some(v.to_string()), Some(o) if o != v => add(vec!["P16"], c.t, format!("stream {s}: request id changed from {o} to {v}")), _ => {} }
                }
            }
            let ctx = trace_context(p);
            let tp = ctx.as_ref().map(|x| x.0.clone());
            let got: Vec<&str> = c.md.iter().filter(|(k, _)| k == "traceparent").filter_map(|(_, v)| std::str::from_utf8(v).ok()).collect();
            if got.len() > 1 { add(vec!["P16"], c.t, format!("stream {s}: call of {} carries {} traceparent headers", c.act, got.len())); }
            let flags = got.first().map(|v| v.rsplit('-').next().unwrap_or("").to_string());
            let got = got.first().map(|v| v.split('-').nth(1).unwrap_or("").to_string());
            if c.kind == CallKind::Action || c.kind == CallKind::Export {
                let carried = |h: &str| -> Option<String> {
                    let want: Vec<&str> = p.headers.iter().filter(|(k, _)| k == h).map(|(_, v)| v.as_str()).collect();
                    let has: Vec<&str> = c.md.iter().filter(|(k, _)| k == h).filter_map(|(_, v)| std::str::from_utf8(v).ok()).collect();
                    // the members of a baggage have no order
                    let members = |v: &[&str]| { let mut m: Vec<String> = v.iter().flat_map(|v| if h == "baggage" { v.split(',').map(str::to_string).collect() } else { vec![v.to_string()] }).collect(); if h == "baggage" { m.sort(); } m };
                    let (want, has) = (members(&want), members(&has));
                    (want != has).then(|| format!("stream {s}: call of {} carries the {h} {has:?}, the request's is {want:?}", c.act))
                };
                if !hdr_fault { if let Some(x) = carried("baggage") { add(vec!["P16"], c.t, x) } }
                match (&tp, &got) {
                    (Some(t), g) if !hdr_fault => { nt.insert("P16"); if g.as_ref() != Some(t) { add(vec!["P16"], c.t, format!("stream {s}: call of {} carries trace {g:?}, the request's is {t}", c.act)) }
                        // the decision to record, and what came along with it
                        let f = ctx.as_ref().map(|x| x.2.clone());
                        if flags != f { add(vec!["P16"], c.t, format!("stream {s}: call of {} carries the trace flags {flags:?}, the request's are {f:?}", c.act)) }
                        if let Some(x) = carried("tracestate") { add(vec!["P16"], c.t, x) }
                    }
                    (None, Some(g)) => if let Some(o) = traces.insert(g.clone(), s) { if o != s { add(vec!["P16", "P07"], c.t, format!("streams {o} and {s} share trace {g}")) } },
                    _ => {}
                }
            }
        }
        if let Some(o) = &own { if incoming.is_none() { if let Some(x) = ids.insert(o.clone(), s) { if x != s { add(vec!["P16", "P07"], w.now, format!("streams {x} and {s} share request id {o}")); } } } }
        if st.local.is_some() { nt.insert("P02"); }
        if calls.iter().any(|c| c.failed || c.plan_status != 0) { nt.insert("P03"); }
        if st.disconnected { nt.insert("P21"); }
        // a completed request was answered once: either the upstream response, intact, or the local reply
        if st.cl_done && !st.disconnected && !st.reset {
            if let Some(l) = &st.local {
                if st.cl_body != l.body { add(vec!["P02"], w.now, format!("stream {s}: client received body {:?} of a local reply {:?}", st.cl_body, l.body)); }
            } else {
                if st.cl_body != to_wire(&p.upstream.body) { add(vec!["P09", "P10", "P22"], w.now, format!("stream {s}: the client did not receive the upstream body unchanged")); }
            }
            if st.req_complete && st.up_body != to_wire(p.body.as_deref().unwrap_or("")) { add(vec!["P08", "P22"], w.now, format!("stream {s}: upstream did not receive the request body unchanged")); }
        }
        // deny-mode guard that failed before anything reached the response phase: fail closed
        if !plan.exact && !st.disconnected {
            if let Some(ci) = st.cfg {
                let cfg = &plan.cfgs[ci];
                let g = guards(plan, ci, s);
                for c in calls.iter().filter(|c| c.kind == CallKind::Action && g.contains(&c.act)) {
                    let deny = cfg.svcs.iter().any(|x| x.endpoint == c.cluster && x.deny) && cfg.svcs.iter().filter(|x| x.endpoint == c.cluster).count() == 1;
                    let failed = c.failed || c.settled.as_ref().is_some_and(|x| x.0 != 0);
                    let resp_first = w.recs.iter().any(|r| r.stream == s && matches!(r.cb, Cb::RespHdr { local: false, .. }) && r.t <= c.t);
                    if deny && failed && !resp_first && st.local.is_none() && !st.alive {
                        add(vec!["P03", "P01"], c.t, format!("stream {s}: guard {} (failure mode deny) failed and the client got no local reply", c.act));
                    }
                }
            }
        }
    }

    // ---- traces
    let mut roots: BTreeMap<String, u32> = BTreeMap::new();
    let mut foreign: BTreeSet<String> = BTreeSet::new();
    let silent = (0..plan.streams.len()).filter(|&s| w.st[s].created && stream_id(w, s).is_none()).count();
    for c in w.calls.iter().filter(|c| c.kind == CallKind::Export) {
        if let Some(k) = c.stream.and_then(|s| w.st[s].cfg) {
            let (e, t) = plan.cfgs[k].tracer();
            if c.cluster != e || c.timeout_ms != t || c.service != "opentelemetry.proto.collector.trace.v1.TraceService" || c.method != "Export" { add(vec!["P17", "P11"], c.t, format!("trace export called {}/{}/{} timeout {} ms, configured {e} timeout {t} ms", c.cluster, c.service, c.method, c.timeout_ms)); }
        }
        let Ok(r) = ExportTraceServiceRequest::decode(&c.payload[..]) else { add(vec!["P17"], c.t, "trace export does not decode".into()); continue };
        nt.insert("P17");
        let mut spans = vec![];
        for rs in &r.resource_spans { for ss in &rs.scope_spans { spans.extend(ss.spans.iter().cloned()); } }
        if spans.is_empty() { add(vec!["P17"], c.t, "an empty trace export".into()); }
        for sp in &spans {
            let hex: String = sp.span_id.iter().map(|b| format!("{b:02x}")).collect();
            let tr: String = sp.trace_id.iter().map(|b| format!("{b:02x}")).collect();
            let key = format!("{tr}/{hex}");
            let n = roots.entry(key.clone()).or_default();
            *n += 1;
            if *n == 2 { add(vec!["P17"], c.t, format!("span {} exported twice", sp.name)); }
            if sp.name == "kuadrant_filter" {
                let rid = sp.attributes.iter().find(|a| a.key == "request_id").and_then(|a| a.value.clone()).and_then(|v| v.value).map(|v| match v { opentelemetry_proto::tonic::common::v1::any_value::Value::StringValue(s) => s, o => format!("{o:?}") }).unwrap_or_default();
                *roots.entry(format!("root/{rid}")).or_default() += 1;
                // belongs to a request of this run, and to that request's trace
                let owner = (0..plan.streams.len()).find(|&s| stream_id(w, s).as_deref() == Some(&rid));
                match owner {
                    // a request that made no call and whose answer nobody saw keeps its own id to itself
                    None if { foreign.insert(rid.clone()); foreign.len() <= silent } => {}
                    None => add(vec!["P17", "P07"], c.t, format!("exported request span with unknown request id {rid}")),
                    Some(s) => {
                        if w.st[s].cfg.is_some_and(|c| { let c = &plan.cfgs[c]; !c.tracing || c.ident.is_none() || matches!(c.level.as_deref(), None | Some("WARN" | "ERROR" | "OFF")) }) { add(vec!["P17", "P11"], c.t, format!("exported request span of stream {s}, whose configuration does not say to record it")); }
                        // without its headers to read, a request starts a trace of its own
                        let hf = plan.streams[s].faults.iter().any(|x| x == "get_map") || plan.transient.iter().any(|(x, _)| x == "get_map");
                        if !hf && trace_context(&plan.streams[s]).is_some_and(|x| x.2 == "00") { add(vec!["P17"], c.t, format!("exported request span of stream {s}, which was not to be recorded")); }
                        if let Some(tp) = trace_context(&plan.streams[s]) {
                            let parent: String = sp.parent_span_id.iter().map(|b| format!("{b:02x}")).collect();
                            if !hf && (tr != tp.0 || parent != tp.1) { add(vec!["P16"], c.t, format!("request span of stream {s} is {tr}/{parent}, the request says {tp:?}")); }
                        } else {
                            let parent: String = sp.parent_span_id.iter().map(|b| format!("{b:02x}")).collect();
                            if !parent.is_empty() && parent.chars().any(|c| c != '0') { add(vec!["P16", "P07"], c.t, format!("request span of stream {s} has parent {parent} although the request carries no trace context")); }
                        }
                    }
                }
            }
        }
    }
    for s in 0..plan.streams.len() {
        let n = w.calls.iter().filter(|c| c.stream == Some(s) && c.kind == CallKind::Export).count();
        if n > 1 { add(vec!["P17"], w.now, format!("stream {s} exported its trace {n} times")); }
        // a request whose policy ran to its end has its trace exported, with the request's own span in it
        // (the configuration in force when it began says so, whatever is offered or accepted later)
        let st = &w.st[s];
        let always = st.cfg.is_some_and(|c| { let c = &plan.cfgs[c]; c.tracing && c.ident.is_some() && matches!(c.level.as_deref(), Some("TRACE" | "DEBUG" | "INFO")) });
        let sampled = trace_context(&plan.streams[s]).map_or(true, |x| x.2 == "01");
        if always && sampled && over.contains(&s) && !panicked && !st.disconnected && st.created && !plan.streams[s].faults.iter().any(|f| f == "get_map") {
            nt.insert("P17");
            if n == 0 { add(vec!["P17"], w.now, format!("the policy of stream {s} ran to its end and its trace was never exported")); }
            else if let Some(id) = stream_id(w, s) { if !roots.contains_key(&format!("root/{id}")) { add(vec!["P17"], w.now, format!("stream {s} exported its trace without the span of the request itself")); } }
        }
    }
    for (k, n) in &roots { if k.starts_with("root/") && *n > 1 { add(vec!["P17"], w.now, format!("request span {k} exported {n} times")); } }

    // ---- descriptors: once faults stop, everything needed is known
    if !panicked && !overrun && plan.transient.is_empty() && !w.tick_set_failed {
        let needed = w.needed(w.root_now);
        if w.active_cfg(w.root_now).is_some_and(|c| c.descriptor_service.is_some()) {
            let r = w.resolved(w.root_now);
            let miss: Vec<_> = needed.iter().filter(|k| !r.contains(k)).collect();
            if !miss.is_empty() { add(vec!["P12"], w.now, format!("descriptors {miss:?} never resolved although the descriptor service recovered")); }
        }
    }

    // ---- what the run exercised
    let mut shape: u64 = 0xcbf2_9ce4_8422_2325;
    let mut mixin = |s: &str| for b in s.as_bytes() { shape = (shape ^ *b as u64).wrapping_mul(0x100_0000_01b3); };
    for r in &w.recs {
        let k = match &r.cb { Cb::Reply { call } => { let c = &w.calls[*call]; format!("r{}:{}", c.act, c.settled.as_ref().map(|x| x.0).unwrap_or(99)) } Cb::ReqBody { eos, .. } => format!("qb{eos}"), Cb::RespBody { eos, local, .. } => format!("sb{eos}{local}"), o => format!("{o:?}") };
        mixin(&format!("{}|{k}|{}{}{:?}|{};", r.stream, r.held_req, r.held_resp, r.disp.iter().map(|&c| w.calls[c].act.clone()).collect::<Vec<_>>(), r.replies.len()));
    }
    note_nontrivial(w, &mut nt);
    Summary { viol, shape, modelled, skipped, nontrivial: nt }
}

/// For which properties did this run contain the situation the property is about?
fn note_nontrivial(w: &W, nt: &mut BTreeSet<&'static str>) {
    for s in 0..w.st.len() {
        let st = &w.st[s];
        if !st.created { continue }
        let calls: Vec<&Call> = w.calls.iter().filter(|c| c.stream == Some(s) && c.kind == CallKind::Action).collect();
        let g = st.cfg.map(|c| guards(&w.plan, c, s)).unwrap_or_default();
        if calls.iter().any(|c| g.contains(&c.act)) { nt.insert("P01"); nt.insert("P04"); }
        if calls.len() > 1 { nt.insert("P05"); }
        if st.cfg.map_or(true, |c| matches!(select(&w.plan.cfgs[c], &w.plan.streams[s]), Sel::Miss | Sel::Empty)) { nt.insert("P22"); }
        if calls.iter().any(|c| c.service == AUTH || c.service == RLS || c.service == KRLS) { nt.insert("P19"); }
        if calls.iter().any(|c| c.act.contains('.')) || calls.len() > 2 { nt.insert("P06"); }
        let p = &w.plan.streams[s];
        if p.body.is_some() && !p.splits.is_empty() { nt.insert("P08"); }
        let late = w.recs.iter().any(|r| r.stream == s && matches!(r.cb, Cb::RespBody { local: false, .. } | Cb::RespTrl) && !r.disp.is_empty());
        if late { nt.insert("P09"); }
        if st.resp_started && st.local.is_none() && calls.iter().any(|c| !g.contains(&c.act)) { nt.insert("P10"); }
        if w.recs.iter().any(|r| r.stream == s && !r.props.is_empty()) { nt.insert("P20"); }
        if w.recs.iter().any(|r| r.stream == s && r.req_hdrs.as_ref().is_some_and(|h| *h != full_headers(p))) || w.recs.iter().any(|r| r.stream == s && matches!(r.cb, Cb::RespHdr { local: false, .. }) && r.resp_hdrs.as_ref().is_some_and(|h| *h != full_resp_headers(&p.upstream))) { nt.insert("P15"); }
    }
    let overlap = w.recs.windows(2).any(|x| x[0].stream != x[1].stream);
    if overlap { nt.insert("P07"); }
    if w.plan.cfgs.len() > 1 || w.plan.cfgs.iter().any(|c| c.sets.len() > 1) { nt.insert("P11"); }
    for s in 0..w.st.len() {
        let mut t = BTreeSet::new();
        for r in w.recs.iter().filter(|r| r.stream == s) { for &c in &r.disp { if w.calls[c].kind == CallKind::Action { t.insert(r.t); } } }
        if t.len() > 1 { nt.insert("P14"); }
    }
    if w.calls.iter().any(|c| c.kind == CallKind::Desc && c.desc_out != Some(DescOut::Ok)) { nt.insert("P12"); }
    if w.metrics.len() > 2 { nt.insert("P13"); }
    if !w.plan.transient.is_empty() || w.fault_counts.keys().any(|k| k.starts_with("host:")) { nt.insert("P18"); }
}
