//! The simulated Envoy: event queue, HTTP data plane, gRPC services, properties, header maps, metrics, faults.
use crate::plan::*;
use crate::seam;
use crate::wire::*;
use prost::Message;
use proxy_wasm::sim::{install_host, Dispatcher, Host};
use proxy_wasm::types::*;
use std::cell::RefCell;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::time::Duration;

pub type Hdrs = Vec<(String, String)>;

// A header value is bytes. Here it is text in which a byte that is not UTF-8 stands as the private character U+F700 + byte.
pub fn to_wire(v: &str) -> Vec<u8> {
    let mut b = vec![];
    for c in v.chars() { match c as u32 { x @ 0xf780..=0xf7ff => b.push((x - 0xf700) as u8), _ => b.extend(c.encode_utf8(&mut [0; 4]).as_bytes()) } }
    b
}
pub fn of_wire(b: &[u8]) -> String {
    let mut s = String::new();
    for c in b.utf8_chunks() { s.push_str(c.valid()); for x in c.invalid() { s.push(char::from_u32(0xf700 + *x as u32).unwrap()); } }
    s
}
/// What the module can show of it.
/// Whether a text of the plan stands for bytes that are no text.
pub fn of_bytes(s: &str) -> bool { s.chars().any(|c| ('\u{f780}'..='\u{f7ff}').contains(&c)) }
pub fn lossy(v: &str) -> String { String::from_utf8_lossy(&to_wire(v)).into_owned() }
fn wire_map(h: &Hdrs) -> Vec<(String, Vec<u8>)> { h.iter().map(|(k, v)| (k.clone(), to_wire(v))).collect() }

#[derive(Clone, Debug, PartialEq)]
pub enum Cb {
    ReqHdr { eos: bool },
    /// `total`: body bytes that have reached the filter so far
    ReqBody { total: usize, eos: bool },
    ReqTrl,
    RespHdr { eos: bool, local: bool },
    RespBody { total: usize, eos: bool, local: bool },
    RespTrl,
    Reply { call: usize },
}

#[derive(Clone, Debug, PartialEq)]
pub struct LocalReply { pub status: u32, pub headers: Hdrs, pub body: Vec<u8> }

/// One callback into the VM for one stream and everything it did.
#[derive(Clone, Debug)]
pub struct Rec {
    pub t: u64,
    pub stream: usize,
    pub cb: Cb,
    pub disp: Vec<usize>,
    pub replies: Vec<LocalReply>,
    pub props: Vec<(Vec<String>, Vec<u8>)>,
    pub metrics: BTreeMap<String, i64>,
    pub resumed: (bool, bool),
    pub paused: Option<bool>,
    /// header maps as they stand afterwards, when the host still lets the filter change them
    pub req_hdrs: Option<Hdrs>,
    pub resp_hdrs: Option<Hdrs>,
    pub held_req: bool,
    pub held_resp: bool,
    pub was_held_req: bool,
    pub was_held_resp: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CallKind { Action, Desc, Export, Unknown }

#[derive(Clone, Debug)]
pub struct Call {
    pub t: u64,
    pub ctx: u32,
    pub stream: Option<usize>,
    pub root: usize,
    pub kind: CallKind,
    pub act: String,
    pub cluster: String,
    pub service: String,
    pub method: String,
    pub timeout_ms: u64,
    pub payload: Vec<u8>,
    pub md: Vec<(String, Vec<u8>)>,
    pub failed: bool,
    pub cancelled: bool,
    /// how it ended: gRPC status and reply bytes, once delivered
    pub settled: Option<(u32, Vec<u8>)>,
    pub plan_status: u32,
    pub plan_bytes: Vec<u8>,
    pub desc_out: Option<DescOut>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Hold { No, Headers, Body, Trailers }

#[derive(Debug)]
pub struct St {
    pub cfg: Option<usize>,
    pub created: bool,
    pub alive: bool,
    pub ended: Option<u64>,
    pub disconnected: bool,
    pub req_hdrs: Hdrs,
    pub req_avail: bool,
    pub req_fwd_hdrs: Option<Hdrs>,
    pub req_hold: Hold,
    pub req_buf: Vec<u8>,
    pub req_total: usize,
    pub req_buf_visible: bool,
    pub req_queue: Vec<u8>,
    pub req_queue_any: bool,
    pub req_queue_eos: bool,
    pub req_queue_trl: bool,
    pub req_eos_seen: bool,
    pub req_complete: bool,
    pub answered_early: bool,
    pub req_stopped: bool,
    pub up_body: Vec<u8>,
    pub up_scheduled: bool,
    pub resp_started: bool,
    pub resp_hdrs: Hdrs,
    pub resp_avail: bool,
    pub resp_hold: Hold,
    pub resp_buf: Vec<u8>,
    pub resp_buf_visible: bool,
    pub resp_total: usize,
    pub resp_queue: Vec<u8>,
    pub resp_queue_any: bool,
    pub resp_queue_eos: bool,
    pub resp_queue_trl: bool,
    pub resp_eos_seen: bool,
    pub cl_status: Option<Hdrs>,
    pub cl_body: Vec<u8>,
    pub cl_done: bool,
    pub reset: bool,
    pub local: Option<LocalReply>,
    pub local_direct: bool,
    /// descriptor state when the stream began, and whether it changed underneath it
    pub root: usize,
    pub unresolved: BTreeSet<(String, String)>,
    pub desc_changed: bool,
}

impl Default for St {
    fn default() -> Self {
        St { cfg: None, root: 0, created: false, alive: false, ended: None, disconnected: false, req_hdrs: vec![], req_avail: false, req_fwd_hdrs: None, req_hold: Hold::No, req_buf: vec![], req_total: 0,
            req_buf_visible: false, req_queue: vec![], req_queue_any: false, req_queue_eos: false, req_queue_trl: false, req_eos_seen: false, req_complete: false, answered_early: false, req_stopped: false, up_body: vec![],
            up_scheduled: false, resp_started: false, resp_hdrs: vec![], resp_avail: false, resp_hold: Hold::No, resp_buf: vec![], resp_buf_visible: false, resp_total: 0, resp_queue: vec![],
            resp_queue_any: false, resp_queue_eos: false, resp_queue_trl: false, resp_eos_seen: false, cl_status: None, cl_body: vec![], cl_done: false, reset: false, local: None, local_direct: false,
            unresolved: BTreeSet::new(), desc_changed: false }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Ev { Cfg(usize), Start(usize), ReqData(usize, usize), UpHdr(usize), UpData(usize, usize), Reply(usize), Tick(usize), Disc(usize) }

/// Something the run shows to be wrong: the properties it bears on, and what happened.
#[derive(Clone, Debug)]
pub struct Viol { pub props: Vec<&'static str>, pub t: u64, pub what: String }

pub struct W {
    pub now: u64,
    pub plan: Plan,
    pub st: Vec<St>,
    pub calls: Vec<Call>,
    pub recs: Vec<Rec>,
    pub viol: Vec<Viol>,
    pub fault_counts: BTreeMap<String, u64>,
    site_counts: BTreeMap<String, u64>,
    nth_counts: BTreeMap<(usize, &'static str), u32>,
    eff: u32,
    deleted: BTreeSet<u32>,
    cur: Option<Rec>,
    grpc_buf: Option<Vec<u8>>,
    /// the root contexts of the VM, in the order of their creation; new requests go to `root_now`
    pub roots: Vec<Root>,
    pub root_now: usize,
    root_cur: usize,
    tick_fail: u32,
    desc_n: usize,
    pub root_disp: Vec<usize>,
    root_metrics: BTreeMap<String, i64>,
    pub metrics: BTreeMap<String, i64>,
    resume: (bool, bool),
    local: Vec<LocalReply>,
    new_calls: Vec<usize>,
    pub digest: u64,
    pub hostcalls: u64,
    pub events: u64,
    pub tick_set_failed: bool,
}

/// A root context: a configuration update either reaches the one there is, or one of its own in the same VM.
#[derive(Clone, Debug, Default)]
pub struct Root { pub cfg: Option<usize>, tick_ms: u64, tick_gen: u64, pub gone: bool }

fn root_id(r: usize) -> u32 { if r == 0 { 1 } else { ROOTS + r as u32 } }
const ROOTS: u32 = 100_000;

pub struct Sim { pub w: RefCell<W> }

const METRICS: [&str; 6] = ["kuadrant.configs", "kuadrant.hits", "kuadrant.misses", "kuadrant.allowed", "kuadrant.denied", "kuadrant.errors"];

impl W {
    fn stream(&self) -> Option<usize> { if self.eff >= 2 && self.eff < ROOTS { Some((self.eff - 2) as usize) } else { None } }
    pub fn violate(&mut self, props: &[&'static str], what: String) {
        let t = self.now;
        self.viol.push(Viol { props: props.to_vec(), t, what });
    }
    fn note(&mut self, s: &str) {
        for b in s.as_bytes() { self.digest = (self.digest ^ *b as u64).wrapping_mul(0x100_0000_01b3); }
    }
    fn count(&mut self, f: &str) { *self.fault_counts.entry(f.to_string()).or_default() += 1; }
    /// Fault decision for a hostcall: sticky per-stream faults and transient nth-call faults.
    fn fault(&mut self, site: &str, detail: Option<&str>) -> bool {
        self.hostcalls += 1;
        if self.deleted.contains(&self.eff) {
            let e = self.eff;
            self.violate(&["P21", "P18"], format!("hostcall {site} on behalf of context {e} after it was destroyed"));
        }
        let n = { let c = self.site_counts.entry(site.to_string()).or_default(); *c += 1; *c };
        let mut hit = self.plan.transient.iter().any(|(s, k)| s == site && *k == n);
        if let Some(s) = self.stream() {
            if let Some(p) = self.plan.streams.get(s) {
                hit |= p.faults.iter().any(|f| f == site || detail.is_some_and(|d| f == d));
            }
        }
        if hit { self.count(&format!("host:{site}")); }
        hit
    }
    /// the n-th of the calls of a kind a stream makes: counted where nothing else stands in its way
    fn nth(&mut self, site: &'static str) -> bool {
        let Some(s) = self.stream() else { return false };
        let n = self.nth_counts.entry((s, site)).or_default();
        *n += 1;
        let f = format!("{site}@{n}");
        let hit = self.plan.streams.get(s).is_some_and(|p| p.faults.iter().any(|x| *x == f));
        if hit { self.count(&format!("host:{site} once")); }
        hit
    }
    pub fn active_cfg(&self, r: usize) -> Option<&Cfg> { self.roots[r].cfg.map(|i| &self.plan.cfgs[i]) }
    /// dynamic services of the configuration in force
    pub fn needed(&self, r: usize) -> BTreeSet<(String, String)> {
        self.active_cfg(r).map(|c| c.svcs.iter().filter(|s| s.kind == SvcKind::Dynamic).map(|s| (s.endpoint.clone(), s.grpc.clone())).collect()).unwrap_or_default()
    }
    pub fn resolved(&self, root: usize) -> BTreeSet<(String, String)> {
        // what correct replies delivered so far have resolved
        let mut r = BTreeSet::new();
        for c in &self.calls {
            if c.kind != CallKind::Desc || c.root != root || c.settled.is_none() { continue }
            let Ok(rep) = DescRep::decode(&c.settled.as_ref().unwrap().1[..]) else { continue };
            if c.settled.as_ref().unwrap().0 != 0 { continue }
            for d in rep.descriptors { if d.fds == descriptor_for(&d.cluster, &d.service) { r.insert((d.cluster, d.service)); } }
        }
        r
    }
}

impl Host for Sim {
    fn now_ns(&self) -> u64 { self.w.borrow().now * 1_000_000 }
    fn get_log_level(&self) -> Result<LogLevel, Status> {
        let mut w = self.w.borrow_mut();
        if w.fault("get_log_level", None) { return Err(Status::InternalFailure) }
        Ok(match if std::env::var_os("SIM_LOG").is_some_and(|v| v == "2") { 0 } else { w.plan.log_level } { 0 => LogLevel::Trace, 1 => LogLevel::Debug, 2 => LogLevel::Info, 3 => LogLevel::Warn, _ => LogLevel::Error })
    }
    fn log(&self, _l: LogLevel, m: &str) {
        if std::env::var_os("SIM_LOG").is_some() { let w = self.w.borrow(); eprintln!("[{:>6} ctx {}] {}", w.now, w.eff, m); }
    }
    fn set_tick_period(&self, p: Duration) -> Result<(), Status> {
        let mut w = self.w.borrow_mut();
        w.hostcalls += 1;
        if w.tick_fail > 0 { w.tick_fail -= 1; w.tick_set_failed = true; w.count("host:set_tick_period"); return Err(Status::InternalFailure) }
        let r = w.root_cur;
        w.roots[r].tick_ms = p.as_millis() as u64;
        w.roots[r].tick_gen += 1;
        Ok(())
    }
    fn get_buffer(&self, t: BufferType, start: usize, max: usize) -> Result<Option<Bytes>, Status> {
        let mut w = self.w.borrow_mut();
        if w.fault("get_buffer", None) { return Err(Status::InternalFailure) }
        let slice = |b: &[u8]| -> Option<Bytes> {
            if b.is_empty() { return None }
            if start >= b.len() { return None }
            let end = b.len().min(start.saturating_add(max));
            Some(b[start..end].to_vec())
        };
        match t {
            BufferType::PluginConfiguration => {
                // configuration being applied is the one named by `eff_cfg`
                let i = w.site_counts.get("#cfg").copied().unwrap_or(0) as usize;
                let c = w.plan.cfgs[i].clone();
                match c.bad { Bad::Absent => Ok(None), Bad::HostError => { w.count("host:config_read"); Err(Status::InternalFailure) } _ => Ok(Some(c.json().into_bytes())) }
            }
            BufferType::GrpcReceiveBuffer => Ok(w.grpc_buf.as_ref().and_then(|b| slice(b))),
            BufferType::HttpRequestBody => { let Some(s) = w.stream() else { return Err(Status::BadArgument) }; let st = &w.st[s]; if !st.req_buf_visible { return Ok(None) } Ok(slice(&st.req_buf)) }
            BufferType::HttpResponseBody => { let Some(s) = w.stream() else { return Err(Status::BadArgument) }; let st = &w.st[s]; if !st.resp_buf_visible { return Ok(None) } Ok(slice(&st.resp_buf)) }
            _ => Err(Status::NotFound),
        }
    }
    fn get_map(&self, t: MapType) -> Result<Vec<(String, Vec<u8>)>, Status> {
        let mut w = self.w.borrow_mut();
        if w.fault("get_map", None) { return Err(Status::InternalFailure) }
        let Some(s) = w.stream() else { return Ok(vec![]) };
        let st = &w.st[s];
        Ok(match t {
            MapType::HttpRequestHeaders if st.req_avail => wire_map(&st.req_hdrs),
            MapType::HttpResponseHeaders if st.resp_avail => wire_map(&st.resp_hdrs),
            _ => vec![],
        })
    }
    fn set_map(&self, t: MapType, map: Vec<(String, Vec<u8>)>) -> Result<(), Status> {
        let map: Hdrs = map.into_iter().map(|(k, v)| (k.to_ascii_lowercase(), of_wire(&v))).collect();
        let mut w = self.w.borrow_mut();
        let f = match t { MapType::HttpRequestHeaders => "set_map_request", _ => "set_map_response" };
        let Some(s) = w.stream() else { return Err(Status::BadArgument) };
        if !(if f == "set_map_request" { w.st[s].req_avail } else { w.st[s].resp_avail }) { return Err(Status::BadArgument) }
        if w.fault("set_map", Some(f)) | w.nth(f) { return Err(Status::InternalFailure) }
        let st = &mut w.st[s];
        match t {
            MapType::HttpRequestHeaders if st.req_avail => { st.req_hdrs = map; Ok(()) }
            MapType::HttpResponseHeaders if st.resp_avail => { st.resp_hdrs = map; Ok(()) }
            _ => Err(Status::BadArgument),
        }
    }
    fn get_map_value(&self, t: MapType, key: &str) -> Result<Option<Vec<u8>>, Status> {
        let mut w = self.w.borrow_mut();
        if w.fault("get_map_value", None) { return Err(Status::InternalFailure) }
        let Some(s) = w.stream() else { return Err(Status::BadArgument) };
        let st = &w.st[s];
        let m = match t {
            MapType::HttpRequestHeaders if st.req_avail => &st.req_hdrs,
            MapType::HttpResponseHeaders if st.resp_avail => &st.resp_hdrs,
            _ => return Err(Status::BadArgument),
        };
        Ok(m.iter().find(|(k, _)| k == key).map(|(_, v)| to_wire(v)))
    }
    fn get_property(&self, path: &[String]) -> Result<Option<Bytes>, Status> {
        let mut w = self.w.borrow_mut();
        let p = path.join(".");
        if w.fault("get_property", Some(&format!("prop:{p}"))) { return Err(Status::InternalFailure) }
        let Some(s) = w.stream() else { return Ok(None) };
        Ok(attr(&w.plan.streams[s], &p).map(|a| a.into_bytes_vec()))
    }
    fn set_property(&self, path: &[String], value: Option<&[u8]>) -> Result<(), Status> {
        let mut w = self.w.borrow_mut();
        if w.fault("set_property", None) | w.nth("set_property") { return Err(Status::InternalFailure) }
        let v = value.unwrap_or(&[]).to_vec();
        if let Some(c) = w.cur.as_mut() { c.props.push((path.to_vec(), v)); }
        Ok(())
    }
    fn resume_http_request(&self) -> Result<(), Status> { let mut w = self.w.borrow_mut(); w.fault("resume", None); w.resume.0 = true; Ok(()) }
    fn resume_http_response(&self) -> Result<(), Status> { let mut w = self.w.borrow_mut(); w.fault("resume", None); w.resume.1 = true; Ok(()) }
    fn send_http_response(&self, status: u32, headers: Hdrs, body: Option<Vec<u8>>) -> Result<(), Status> {
        let mut w = self.w.borrow_mut();
        w.fault("send_http_response", None);
        let headers = headers.into_iter().map(|(k, v)| (k.to_ascii_lowercase(), v)).collect();
        let r = LocalReply { status, headers, body: body.unwrap_or_default() };
        if let Some(c) = w.cur.as_mut() { c.replies.push(r.clone()); }
        w.local.push(r);
        Ok(())
    }
    fn dispatch_grpc_call(&self, upstream: &str, service: &str, method: &str, md: Vec<(String, Vec<u8>)>, message: Vec<u8>, timeout: Duration) -> Result<u32, Status> {
        let mut w = self.w.borrow_mut();
        let faulted = w.fault("dispatch_grpc_call", None);
        let idx = w.calls.len();
        let stream = w.stream();
        let (kind, act) = classify(service, &message);
        let faulted = faulted | (kind == CallKind::Action && w.nth("dispatch_grpc_call"));
        let timeout_ms = timeout.as_millis() as u64;
        let mut c = Call { t: w.now, ctx: w.eff, stream, root: w.root_cur, kind, act, cluster: upstream.into(), service: service.into(), method: method.into(), timeout_ms, payload: message, md, failed: faulted, cancelled: false,
            settled: None, plan_status: 0, plan_bytes: vec![], desc_out: None };
        let mut latency = 1;
        match c.kind {
            CallKind::Desc => {
                let n = w.desc_n; w.desc_n += 1;
                let beh = w.plan.desc.get(n).cloned().unwrap_or(DescBeh { latency: 3, out: DescOut::Ok });
                latency = beh.latency;
                let req = DescReq::decode(&c.payload[..]).unwrap_or_default();
                let all: Vec<Desc> = req.services.iter().map(|r| Desc { cluster: r.cluster.clone(), service: r.service.clone(), fds: descriptor_for(&r.cluster, &r.service) }).collect();
                let rep = |d: Vec<Desc>| DescRep { descriptors: d }.encode_to_vec();
                let name = format!("desc:{}", match &beh.out { DescOut::Ok => "ok", DescOut::Partial(_) => "partial", DescOut::Corrupt(_) => "corrupt", DescOut::Lacking(_) => "lacking", DescOut::Status(_) => "status", DescOut::Garbage => "garbage", DescOut::Empty => "empty", DescOut::Lost => "lost", DescOut::DispatchFail => "dispatch_fail", DescOut::Foreign => "foreign" });
                if beh.out != DescOut::Ok { w.count(&name); }
                match &beh.out {
                    DescOut::Ok => c.plan_bytes = rep(all),
                    DescOut::Partial(k) => c.plan_bytes = rep(all.into_iter().take(*k as usize).collect()),
                    DescOut::Corrupt(k) => { let mut a = all; let n = a.len().max(1); if let Some(d) = a.get_mut(*k as usize % n) { d.fds = vec![0xff, 0x13, 0x37]; } c.plan_bytes = rep(a) }
                    DescOut::Lacking(k) => { let mut a = all; let n = a.len().max(1); if let Some(d) = a.get_mut(*k as usize % n) { d.fds = descriptor_for("", if *k % 2 == 0 { "other.v1.Service" } else { "sim.v1.Other" }); } c.plan_bytes = rep(a) }
                    DescOut::Status(s) => c.plan_status = *s,
                    DescOut::Garbage => c.plan_bytes = vec![0xff; 5],
                    DescOut::Empty => {}
                    DescOut::Lost => { c.plan_status = 4; latency = timeout_ms; }
                    DescOut::DispatchFail => c.failed = true,
                    DescOut::Foreign => { let mut a = all; let same: Vec<Desc> = a.iter().map(|d| Desc { cluster: "elsewhere".into(), service: d.service.clone(), fds: descriptor_for(if second(&d.cluster, "") { "dyn-0" } else { "dyn-1" }, &d.service) }).collect(); a.splice(0..0, same); a.insert(0, Desc { cluster: "elsewhere".into(), service: "x.Y".into(), fds: descriptor_for("", "x.Y") });
                        // and, unasked, of what the module brings along
                        for (n, of) in [("rl", "envoy.service.ratelimit.v3.RateLimitService"), ("check", "kuadrant.service.ratelimit.v1.RateLimitService"), ("report", "kuadrant.service.ratelimit.v1.RateLimitService"), ("auth", "envoy.service.auth.v3.Authorization")] {
                            for m in 0..2 { a.push(Desc { cluster: format!("{n}-{m}"), service: of.into(), fds: descriptor_for("", of) }) }
                        }
                        c.plan_bytes = rep(a)
                    }
                }
                c.desc_out = Some(beh.out);
            }
            CallKind::Export => {
                let beh = stream.and_then(|s| w.plan.streams.get(s)).and_then(|p| p.svc.get("export")).cloned();
                if let Some(b) = beh { latency = b.latency; match b.out { Out::Status(s) => { c.plan_status = s; w.count("export:status") } Out::Lost => { c.plan_status = 4; latency = timeout_ms; w.count("export:lost") } Out::DispatchFail => { c.failed = true; w.count("export:dispatch_fail") } _ => {} } }
            }
            _ => {
                let beh = stream.and_then(|s| w.plan.streams.get(s)).and_then(|p| p.svc.get(&c.act)).cloned().unwrap_or(default_beh());
                latency = beh.latency;
                let name = match &beh.out { Out::Ok { .. } => "", Out::Status(_) => "grpc:status", Out::Garbage => "grpc:garbage", Out::Empty => "grpc:empty", Out::Lost => "grpc:lost", Out::DispatchFail => "grpc:dispatch_fail" };
                if !name.is_empty() { w.count(name); }
                match &beh.out {
                    Out::Ok { code, tag, hdrs } => c.plan_bytes = reply_bytes(upstream, method, service, *code, tag, hdrs),
                    Out::Status(s) => c.plan_status = *s,
                    Out::Garbage => c.plan_bytes = vec![0xff; 7],
                    Out::Empty => {}
                    Out::Lost => { c.plan_status = 4; latency = timeout_ms; }
                    Out::DispatchFail => c.failed = true,
                }
            }
        }
        if latency > timeout_ms { w.count("grpc:timeout"); c.plan_status = 4; c.plan_bytes.clear(); latency = timeout_ms; }
        let failed = c.failed;
        c.plan_status |= 0;
        let at = w.now + latency;
        w.calls.push(c);
        if stream.is_some() { if let Some(cur) = w.cur.as_mut() { cur.disp.push(idx); } } else { w.root_disp.push(idx); }
        if failed { return Err(Status::InternalFailure) }
        w.new_calls.push(idx);
        w.calls[idx].t = w.now;
        w.site_counts.insert(format!("#at{idx}"), at);
        Ok(idx as u32 + 1)
    }
    fn define_metric(&self, _t: MetricType, name: &str) -> Result<u32, Status> {
        Ok(METRICS.iter().position(|m| *m == name).map(|i| i as u32 + 1).unwrap_or(99))
    }
    fn increment_metric(&self, id: u32, offset: i64) -> Result<(), Status> {
        let mut w = self.w.borrow_mut();
        let name = METRICS.get((id as usize).wrapping_sub(1)).copied().unwrap_or("?").to_string();
        let faulted = w.fault("increment_metric", None);
        *w.metrics.entry(name.clone()).or_default() += offset;
        if w.stream().is_some() { if let Some(c) = w.cur.as_mut() { *c.metrics.entry(name).or_default() += offset; } } else { *w.root_metrics.entry(name).or_default() += offset; }
        if faulted { Err(Status::InternalFailure) } else { Ok(()) }
    }
    fn get_metric(&self, _id: u32) -> Result<u64, Status> { Ok(0) }
    fn set_effective_context(&self, id: u32) -> Result<(), Status> { self.w.borrow_mut().eff = id; Ok(()) }
}

pub fn default_beh() -> Beh { Beh { latency: 3, out: Out::Ok { code: 1, tag: "dflt".into(), hdrs: vec![] } } }

pub const AUTH: &str = "envoy.service.auth.v3.Authorization";
pub const RLS: &str = "envoy.service.ratelimit.v3.RateLimitService";
pub const KRLS: &str = "kuadrant.service.ratelimit.v1.RateLimitService";

fn classify(service: &str, msg: &[u8]) -> (CallKind, String) {
    if service.contains("DescriptorService") { return (CallKind::Desc, String::new()) }
    if service.contains("TraceService") { return (CallKind::Export, "export".into()) }
    let strip = |s: String| s.strip_prefix('s').map(|x| x.split('~').next().unwrap_or(x).to_string()).unwrap_or(s);
    if service == AUTH {
        let host = AuthReq::decode(msg).ok().and_then(|r| r.attributes).and_then(|a| a.ext.get("host").cloned()).unwrap_or_default();
        return (CallKind::Action, strip(host));
    }
    if service == RLS || service == KRLS {
        return (CallKind::Action, strip(RlReq::decode(msg).map(|r| r.domain).unwrap_or_default()));
    }
    match DynReq::decode(msg) { Ok(r) => (CallKind::Action, r.act), Err(_) => (CallKind::Unknown, "?".into()) }
}

pub fn kv(h: &Hdrs) -> Vec<Kv> { h.iter().map(|(k, v)| Kv { key: k.clone(), value: v.clone() }).collect() }

fn reply_bytes(cluster: &str, method: &str, service: &str, code: i64, tag: &str, hdrs: &Hdrs) -> Vec<u8> {
    if service == AUTH {
        let opts = || kv(hdrs).into_iter().map(|h| HOpt { header: Some(h) }).collect::<Vec<_>>();
        let mut r = AuthRep { status: Some(HStatus { code: 0 }), ..Default::default() };
        match code {
            0 => { r.ok = Some(OkResp { headers: opts(), ..Default::default() }); if !tag.is_empty() { r.meta = Some(struct_of("identity", tag)); } }
            1 => {}
            2 => r.ok = Some(OkResp { headers: opts(), remove: vec!["x-gone".into()], resp_add: vec![] }),
            777 => r.denied = Some(Denied { status: None, headers: opts(), body: tag.into() }),
            c => r.denied = Some(Denied { status: Some(HStatus { code: if c == 3 { 0 } else { c as i32 } }), headers: opts(), body: tag.into() }),
        }
        return r.encode_to_vec();
    }
    if service == RLS || service == KRLS { return RlRep { code: code as i32, headers: kv(hdrs) }.encode_to_vec(); }
    DynRep { hk: kv(hdrs), ho: kv(hdrs).into_iter().map(|h| HOpt { header: Some(h) }).collect(), ..dyn_rep(tag, code) }.bytes(cluster, method)
}

pub enum AttrVal { S(String), I(i64), U(u64), B(bool) }
impl AttrVal {
    fn into_bytes_vec(self) -> Vec<u8> { match self { AttrVal::S(s) => to_wire(&s), AttrVal::I(i) => i.to_le_bytes().to_vec(), AttrVal::U(i) => i.to_le_bytes().to_vec(), AttrVal::B(b) => vec![b as u8] } }
}

/// Host properties of a stream.
pub fn attr(s: &Stream, path: &str) -> Option<AttrVal> {
    let st = |v: &str| Some(AttrVal::S(v.to_string()));
    match path {
        "request.host" => st(&s.host),
        "request.path" => st(&s.path),
        "request.url_path" => st(s.path.split('?').next().unwrap_or("")),
        "request.method" => st(&s.method),
        "request.scheme" => st("http"),
        "request.protocol" => st("HTTP/1.1"),
        "request.time" => Some(AttrVal::I(1_700_000_000_000_000_000 + s.at as i64 * 1_000_000)),
        "source.address" => Some(AttrVal::S(if s.v6 { format!("[2001:db8::{:x}]:{}", s.id + 1, 40000 + s.id) } else { format!("10.0.{}.{}:{}", s.id / 250, s.id % 250, 40000 + s.id) })),
        "request.query" => st(s.path.split_once('?').map(|x| x.1).unwrap_or("")),
        "request.useragent" => st("agent/1"),
        "request.id" => Some(AttrVal::S(format!("envoy-{}", s.id))),
        "request.size" => Some(AttrVal::I(s.body.as_ref().map_or(0, |b| to_wire(b).len() as i64))),
        "connection.id" => Some(AttrVal::U(900 + s.id as u64)),
        "connection.mtls" => Some(AttrVal::B(s.id % 2 == 1)),
        "source.port" => Some(AttrVal::I(40000 + s.id as i64)),
        "destination.address" => st("10.9.9.9:8080"),
        "destination.port" => Some(AttrVal::I(8080)),
        _ => None,
    }
}

/// What an expression sees at `path`, as text; the client address comes without its port.
pub fn attr_text(s: &Stream, path: &str) -> Option<String> {
    if path == "source.remote_address" {
        return Some(if s.v6 { format!("2001:db8::{:x}", s.id + 1) } else { format!("10.0.{}.{}", s.id / 250, s.id % 250) })
    }
    if let Some(part) = path.strip_prefix("request.grpc.") {
        if !s.headers.iter().any(|(k, v)| k == "content-type" && v.starts_with("application/grpc")) { return None }
        let p: Vec<&str> = s.path.split('?').next().unwrap_or("").split('/').collect();
        return match p[..] { ["", svc, m] if !svc.is_empty() && !m.is_empty() => Some(if part == "service" { svc } else { m }.to_string()), _ => None }
    }
    attr(s, path).map(|v| match v { AttrVal::S(v) => v, AttrVal::I(v) => v.to_string(), AttrVal::U(v) => v.to_string(), AttrVal::B(v) => v.to_string() }).filter(|v| !of_bytes(v))
}
/// The host property behind an attribute.
pub fn attr_source(path: &str) -> &str { if path == "source.remote_address" { "source.address" } else { path } }

pub fn full_headers(p: &Stream) -> Hdrs {
    let mut h: Hdrs = vec![(":authority".into(), p.host.clone()), (":path".into(), p.path.clone()), (":method".into(), p.method.clone()), (":scheme".into(), "http".into())];
    h.extend(p.headers.iter().cloned());
    h
}
pub fn full_resp_headers(u: &Upstream) -> Hdrs {
    let mut h: Hdrs = vec![(":status".into(), "200".into())];
    h.extend(u.headers.iter().cloned());
    h
}

pub fn chunks(body: &str, splits: &[usize], bare_eos: bool) -> Vec<Vec<u8>> {
    let b = to_wire(body);
    let mut cuts: Vec<usize> = splits.iter().copied().filter(|&x| x > 0 && x < b.len()).collect();
    cuts.sort_unstable();
    cuts.dedup();
    let mut out = vec![];
    let mut prev = 0;
    for c in cuts { out.push(b[prev..c].to_vec()); prev = c; }
    if prev < b.len() || out.is_empty() { out.push(b[prev..].to_vec()); }
    if bare_eos && !b.is_empty() { out.push(vec![]); }
    out
}

pub struct Engine {
    pub sim: Rc<Sim>,
    disp: Dispatcher,
    q: BinaryHeap<Reverse<(u64, u64, Ev)>>,
    seq: u64,
    dead: bool,
    guards: Vec<BTreeSet<String>>,
    pub budget: u64,
}

/// Which actions of a stream are guards; filled by the model's selection.
pub type GuardFn = fn(&Plan, usize, usize) -> BTreeSet<String>;

impl Engine {
    pub fn new(plan: &Plan) -> Engine {
        let n = plan.streams.len();
        let w = W { now: 0, plan: plan.clone(), st: (0..n).map(|_| St::default()).collect(), calls: vec![], recs: vec![], viol: vec![], fault_counts: BTreeMap::new(), site_counts: BTreeMap::new(), nth_counts: BTreeMap::new(), eff: 0,
            deleted: BTreeSet::new(), cur: None, grpc_buf: None, roots: vec![Root::default()], root_now: 0, root_cur: 0, tick_fail: plan.tick_fail, desc_n: 0, root_disp: vec![], root_metrics: BTreeMap::new(), metrics: BTreeMap::new(),
            resume: (false, false), local: vec![], new_calls: vec![], digest: 0xcbf2_9ce4_8422_2325, hostcalls: 0, events: 0, tick_set_failed: false };
        Engine { sim: Rc::new(Sim { w: RefCell::new(w) }), disp: Dispatcher::new(), q: BinaryHeap::new(), seq: 0, dead: false, guards: vec![BTreeSet::new(); n], budget: 20_000 }
    }
    fn at(&mut self, t: u64, e: Ev) { self.seq += 1; self.q.push(Reverse((t, self.seq, e))); }

    /// Runs the plan to quiescence. Must be called on a fresh thread.
    pub fn run(mut self, guards: GuardFn) -> W {
        seam::enter(self.sim.w.borrow().plan.seed);
        install_host(Some(self.sim.clone()));
        shim::sim_start();
        kuadrant_filter::tracing::get_span_processor().clear();
        self.root(0, |d| { d.create_root(1); d.on_vm_start(1); });
        let plan = self.sim.w.borrow().plan.clone();
        for (i, c) in plan.cfgs.iter().enumerate() { self.at(c.at, Ev::Cfg(i)); }
        for (i, s) in plan.streams.iter().enumerate() {
            self.at(s.at, Ev::Start(i));
            if let Some(d) = s.disconnect { self.at(s.at + d, Ev::Disc(i)); }
        }
        let mut steps = 0u64;
        let mut idle_ticks = 0;
        while let Some(Reverse((t, _, e))) = self.q.pop() {
            if self.dead { break }
            steps += 1;
            if steps > self.budget { self.sim.w.borrow_mut().violate(&["P04"], "no quiescence within the step budget".into()); break }
            {
                let mut w = self.sim.w.borrow_mut();
                // nothing but the timer left: a few more periods, to let what the timer drives settle
                if matches!(e, Ev::Tick(_)) && self.q.iter().all(|Reverse((_, _, e))| matches!(e, Ev::Tick(_))) { idle_ticks += 1; } else { idle_ticks = 0; }
                if idle_ticks > 6 * w.roots.len() { break }
                w.now = t; w.events += 1;
                seam::set_now(t * 1_000_000);
                w.note(&format!("{t}:{e:?};"));
            }
            match e {
                Ev::Cfg(i) => self.configure(i),
                Ev::Start(s) => self.start(s, guards),
                Ev::ReqData(s, k) => self.req_data(s, k),
                Ev::UpHdr(s) => self.up_hdr(s),
                Ev::UpData(s, k) => self.up_data(s, k),
                Ev::Reply(c) => self.reply(c),
                Ev::Tick(r) => self.tick(r),
                Ev::Disc(s) => {
                    let alive = self.sim.w.borrow().st[s].alive;
                    if alive { { let mut w = self.sim.w.borrow_mut(); w.st[s].disconnected = true; w.count("disconnect"); } self.finish(s) }
                }
            }
        }
        install_host(None);
        let disp = std::mem::take(&mut self.disp);
        if self.dead { disp.abandon() } else { disp.end() }
        seam::leave();
        let Engine { sim, .. } = self;
        let n = Rc::try_unwrap(sim).ok().expect("sim still shared").w.into_inner();
        n
    }

    fn guarded<R>(&mut self, f: impl FnOnce(&mut Dispatcher) -> R) -> Option<R> {
        let d = &mut self.disp;
        let r = catch_unwind(AssertUnwindSafe(|| f(d)));
        match r {
            Ok(r) => Some(r),
            Err(p) => {
                let msg = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                self.dead = true;
                if let Ok(mut w) = self.sim.w.try_borrow_mut() { w.violate(&["P18"], format!("the module panicked: {msg}")); }
                None
            }
        }
    }
    fn after(&mut self) {
        let calls = {
            let mut w = self.sim.w.borrow_mut();
            let c: Vec<(u64, usize)> = std::mem::take(&mut w.new_calls).into_iter().map(|i| (w.site_counts.get(&format!("#at{i}")).copied().unwrap_or(0), i)).collect();
            c
        };
        for (t, i) in calls { self.at(t, Ev::Reply(i)); }
    }
    /// A callback on the root context.
    fn root<R>(&mut self, k: usize, f: impl FnOnce(&mut Dispatcher) -> R) -> Option<R> {
        let gen0 = { let mut w = self.sim.w.borrow_mut(); w.root_disp.clear(); w.root_metrics.clear(); w.root_cur = k; w.roots[k].tick_gen };
        let r = self.guarded(f);
        self.after();
        let (gen, ms, now) = { let w = self.sim.w.borrow(); (w.roots[k].tick_gen, w.roots[k].tick_ms, w.now) };
        if gen != gen0 && ms > 0 { self.q.retain(|Reverse((_, _, e))| *e != Ev::Tick(k)); self.at(now + ms, Ev::Tick(k)); }
        r
    }

    fn configure(&mut self, i: usize) {
        let (bad, fresh, size, old) = { let mut w = self.sim.w.borrow_mut(); w.site_counts.insert("#cfg".into(), i as u64); let c = &w.plan.cfgs[i]; (c.bad, c.fresh, c.json().len(), w.root_now) };
        let k = if fresh { let mut w = self.sim.w.borrow_mut(); w.roots.push(Root::default()); w.count("config:new_root"); w.roots.len() - 1 } else { old };
        let id = root_id(k);
        if fresh { self.root(k, |d| { d.create_root(id); d.on_vm_start(id); }); }
        if self.dead { return }
        let before = self.sim.w.borrow().roots[k].cfg;
        let ok = self.root(k, |d| d.on_configure(id, size));
        let mut w = self.sim.w.borrow_mut();
        w.note(&format!("cfg{ok:?};"));
        let good = bad == Bad::No;
        if bad != Bad::No { w.count(&format!("config:{bad:?}")); }
        if let Some(ok) = ok {
            let log_fault = w.plan.transient.iter().any(|(s, _)| s == "get_buffer" || s == "get_log_level");
            if good && !ok && !log_fault { w.violate(&["P11"], format!("valid configuration {i} was rejected")); }
            if !good && ok && bad != Bad::Absent { w.violate(&["P11"], format!("invalid configuration {i} ({bad:?}) was accepted")); }
            let m = w.root_metrics.get("kuadrant.configs").copied().unwrap_or(0);
            if ok && m != 1 && bad != Bad::Absent { w.violate(&["P13"], format!("configuration counter moved by {m} on a configuration that was applied")); }
            if good && ok { w.roots[k].cfg = Some(i); w.root_now = k; } else { w.roots[k].cfg = before; }
        }
        drop(w);
        self.check_desc_request(k, "configuration", good && ok == Some(true));
        self.mark_desc_change();
        for r in 0..=k { self.retire(r); }
    }

    /// A root context that takes no new requests ends with the last one it has.
    fn retire(&mut self, r: usize) {
        { let w = self.sim.w.borrow(); if self.dead || r == w.root_now || w.roots[r].gone || w.st.iter().any(|s| s.alive && s.root == r) { return } }
        {
            let mut w = self.sim.w.borrow_mut();
            w.roots[r].gone = true;
            for c in w.calls.iter_mut() { if c.stream.is_none() && c.root == r && c.settled.is_none() { c.cancelled = true; } }
        }
        self.q.retain(|Reverse((_, _, e))| *e != Ev::Tick(r));
        let id = root_id(r);
        self.root(r, |d| { d.on_done(id); d.delete(id); });
        self.q.retain(|Reverse((_, _, e))| *e != Ev::Tick(r));
        self.sim.w.borrow_mut().deleted.insert(id);
    }

    /// Every missing descriptor that is not already being asked for is asked for; nothing else is.
    fn check_desc_request(&mut self, k: usize, why: &str, complete: bool) {
        let mut w = self.sim.w.borrow_mut();
        let asked: Vec<(String, String)> = w.root_disp.iter().filter(|&&c| w.calls[c].kind == CallKind::Desc).flat_map(|&c| DescReq::decode(&w.calls[c].payload[..]).unwrap_or_default().services.into_iter().map(|s| (s.cluster, s.service))).collect();
        let needed = w.needed(k);
        let resolved = w.resolved(k);
        let this: Vec<usize> = w.root_disp.clone();
        let pending: BTreeSet<(String, String)> = w.calls.iter().enumerate().filter(|(i, c)| c.kind == CallKind::Desc && c.root == k && !c.failed && c.settled.is_none() && !this.contains(i))
            .flat_map(|(_, c)| DescReq::decode(&c.payload[..]).unwrap_or_default().services.into_iter().map(|s| (s.cluster, s.service))).collect();
        for a in &asked {
            if resolved.contains(a) && w.plan.transient.is_empty() { w.violate(&["P12"], format!("descriptor of {a:?} requested again although it is known ({why})")); }
            if pending.contains(a) { w.violate(&["P12"], format!("descriptor of {a:?} requested while a request for it is outstanding ({why})")); }
        }
        for c in this.iter() {
            let c = w.calls[*c].clone();
            if c.kind == CallKind::Desc {
                let want = w.active_cfg(k).and_then(|c| c.descriptor_service.clone()).unwrap_or_default();
                if c.cluster != want && w.roots[k].cfg.is_some() { w.violate(&["P12"], format!("descriptor request sent to {:?}, configured {:?}", c.cluster, want)); }
            }
        }
        if complete && w.active_cfg(k).is_some_and(|c| c.descriptor_service.is_some()) && w.plan.transient.is_empty() {
            for n in needed.iter() {
                if !resolved.contains(n) && !pending.contains(n) && !asked.contains(n) {
                    w.violate(&["P12"], format!("descriptor of {n:?} is missing and was not requested on {why}"));
                }
            }
        }
    }
    fn mark_desc_change(&mut self) {
        let mut w = self.sim.w.borrow_mut();
        for i in 0..w.st.len() {
            if w.st[i].unresolved.is_empty() { continue }
            let resolved = w.resolved(w.st[i].root);
            if w.st[i].alive && w.st[i].unresolved.iter().any(|k| resolved.contains(k)) { w.st[i].desc_changed = true; }
        }
    }
    fn tick(&mut self, k: usize) {
        let (gen, ms, now) = { let w = self.sim.w.borrow(); if w.roots[k].tick_ms == 0 || w.roots[k].gone { return } (w.roots[k].tick_gen, w.roots[k].tick_ms, w.now) };
        self.root(k, |d| d.on_tick(root_id(k)));
        self.check_desc_request(k, "tick", true);
        let same = self.sim.w.borrow().roots[k].tick_gen == gen;
        if same && !self.dead { self.at(now + ms, Ev::Tick(k)); }
    }

    fn reply(&mut self, c: usize) {
        let (stream, bytes, status, kind) = {
            let mut w = self.sim.w.borrow_mut();
            if w.calls[c].cancelled { return }
            let (b, s) = (w.calls[c].plan_bytes.clone(), w.calls[c].plan_status);
            w.calls[c].settled = Some((s, b.clone()));
            (w.calls[c].stream, b, s, w.calls[c].kind)
        };
        let _ = kind;
        let token = c as u32 + 1;
        self.sim.w.borrow_mut().grpc_buf = if status == 0 { Some(bytes.clone()) } else { None };
        match stream {
            None => {
                let k = self.sim.w.borrow().calls[c].root;
                let id = root_id(k);
                self.root(k, |d| if status == 0 { d.on_grpc_receive(id, token, bytes.len()) } else { d.on_grpc_close(id, token, status) });
                self.mark_desc_change();
            }
            Some(s) => {
                self.guards_settle(s, c);
                self.cb(s, Cb::Reply { call: c }, |d, id| { if status == 0 { d.on_grpc_receive(id, token, bytes.len()); } else { d.on_grpc_close(id, token, status); } None });
            }
        }
        self.sim.w.borrow_mut().grpc_buf = None;
    }
    fn guards_settle(&mut self, _s: usize, _c: usize) {}

    /// guard calls of the stream that have been dispatched and not answered
    fn guards_out(&self, s: usize) -> Vec<String> {
        let w = self.sim.w.borrow();
        w.calls.iter().filter(|c| c.stream == Some(s) && c.kind == CallKind::Action && !c.failed && c.settled.is_none() && self.guards[s].contains(&c.act)).map(|c| c.act.clone()).collect()
    }

    /// One callback for a stream, and the consequences Envoy draws from it.
    fn cb(&mut self, s: usize, cb: Cb, f: impl FnOnce(&mut Dispatcher, u32) -> Option<Action>) {
        if self.dead { return }
        {
            let mut w = self.sim.w.borrow_mut();
            let st = &w.st[s];
            let rec = Rec { t: w.now, stream: s, cb: cb.clone(), disp: vec![], replies: vec![], props: vec![], metrics: BTreeMap::new(), resumed: (false, false), paused: None, req_hdrs: None, resp_hdrs: None,
                held_req: false, held_resp: false, was_held_req: st.req_hold != Hold::No, was_held_resp: st.resp_hold != Hold::No };
            w.cur = Some(rec);
            w.resume = (false, false);
            w.local.clear();
        }
        let id = s as u32 + 2;
        let action = self.guarded(|d| f(d, id));
        self.after();
        if self.dead { return }
        let action = action.flatten();
        let (resume, locals) = {
            let mut w = self.sim.w.borrow_mut();
            let resume = w.resume;
            let locals = std::mem::take(&mut w.local);
            let mut rec = w.cur.take().unwrap();
            let st = &mut w.st[s];
            if st.req_avail { rec.req_hdrs = Some(st.req_hdrs.clone()); }
            if st.resp_avail { rec.resp_hdrs = Some(st.resp_hdrs.clone()); }
            let pause = action == Some(Action::Pause);
            match cb {
                Cb::ReqHdr { .. } => if pause { st.req_hold = Hold::Headers },
                Cb::ReqBody { .. } => st.req_hold = if pause { Hold::Body } else { Hold::No },
                Cb::ReqTrl => st.req_hold = if pause { Hold::Trailers } else { Hold::No },
                Cb::RespHdr { .. } => if pause { st.resp_hold = Hold::Headers },
                Cb::RespBody { .. } => st.resp_hold = if pause { Hold::Body } else { Hold::No },
                Cb::RespTrl => st.resp_hold = if pause { Hold::Trailers } else { Hold::No },
                Cb::Reply { .. } => {}
            }
            rec.paused = action.map(|a| a == Action::Pause);
            rec.resumed = resume;
            rec.held_req = st.req_hold != Hold::No && !resume.0;
            rec.held_resp = st.resp_hold != Hold::No && !resume.1;
            w.note(&format!("{rec:?};"));
            w.recs.push(rec);
            (resume, locals)
        };
        for l in locals { self.apply_local(s, l); }
        let stopped = { let w = self.sim.w.borrow(); !w.st[s].alive || w.st[s].req_stopped };
        if !stopped {
            match cb {
                Cb::ReqHdr { .. } => if action != Some(Action::Pause) { self.forward_req_headers(s) },
                Cb::ReqBody { .. } => if action != Some(Action::Pause) { self.forward_req_body(s) },
                Cb::ReqTrl => if action != Some(Action::Pause) { self.forward_req_trailers(s) },
                _ => {}
            }
            if resume.0 { self.resume_req(s); }
        }
        if !self.sim.w.borrow().st[s].alive { return }
        let local_started = self.sim.w.borrow().st[s].local.is_some();
        let _ = local_started;
        match cb {
            Cb::RespHdr { eos, .. } => if action != Some(Action::Pause) { self.forward_resp_headers(s, eos) },
            Cb::RespBody { .. } => if action != Some(Action::Pause) { self.forward_resp_body(s) },
            Cb::RespTrl => if action != Some(Action::Pause) { self.forward_resp_end(s) },
            _ => {}
        }
        if resume.1 && self.sim.w.borrow().st[s].alive { self.resume_resp(s); }
    }

    fn start(&mut self, s: usize, guards: GuardFn) {
        let (p, cfg) = {
            let mut w = self.sim.w.borrow_mut();
            let p = w.plan.streams[s].clone();
            let root = w.root_now;
            let cfg = w.roots[root].cfg;
            let unresolved: BTreeSet<_> = { let r = w.resolved(root); w.needed(root).into_iter().filter(|k| !r.contains(k)).collect() };
            let st = &mut w.st[s];
            st.root = root;
            st.created = true;
            st.cfg = cfg;
            st.unresolved = unresolved;
            (p, cfg)
        };
        self.guards[s] = match cfg { Some(c) => guards(&self.sim.w.borrow().plan, c, s), None => BTreeSet::new() };
        let id = s as u32 + 2;
        let root = root_id(self.sim.w.borrow().st[s].root);
        let made = self.guarded(|d| d.create_http(id, root));
        self.after();
        if made != Some(true) { return }
        { let mut w = self.sim.w.borrow_mut(); let st = &mut w.st[s]; st.alive = true; st.req_hdrs = full_headers(&p); st.req_avail = true; }
        let eos = p.body.is_none() && !p.trailers;
        let n = p.headers.len() + 4;
        // data arrives on its own clock, whatever the filter does
        let mut k = 0;
        if let Some(b) = &p.body { for _ in chunks(b, &p.splits, p.bare_eos) { self.at(p.at + (k as u64 + 1) * p.gap, Ev::ReqData(s, k)); k += 1; } }
        if p.trailers { self.at(p.at + (k as u64 + 1) * p.gap, Ev::ReqData(s, usize::MAX)); }
        self.sim.w.borrow_mut().st[s].req_eos_seen = eos;
        self.cb(s, Cb::ReqHdr { eos }, |d, id| Some(d.on_request_headers(id, n, eos)));
    }

    fn req_data(&mut self, s: usize, k: usize) {
        let (p, ok, held) = { let w = self.sim.w.borrow(); let st = &w.st[s]; (w.plan.streams[s].clone(), st.alive && !st.req_stopped, st.req_hold == Hold::Headers) };
        if !ok { return }
        if k == usize::MAX {
            self.sim.w.borrow_mut().st[s].req_eos_seen = true;
            if held { self.sim.w.borrow_mut().st[s].req_queue_trl = true; return }
            return self.req_trailers(s);
        }
        let ch = chunks(p.body.as_deref().unwrap_or(""), &p.splits, p.bare_eos);
        let eos = k + 1 == ch.len() && !p.trailers;
        if eos { self.sim.w.borrow_mut().st[s].req_eos_seen = true; }
        if held {
            let mut w = self.sim.w.borrow_mut();
            let st = &mut w.st[s];
            st.req_queue.extend_from_slice(&ch[k]);
            st.req_queue_any = true;
            st.req_queue_eos |= eos;
            return;
        }
        self.deliver_req(s, ch[k].clone(), eos);
    }
    fn deliver_req(&mut self, s: usize, data: Vec<u8>, eos: bool) {
        let (size, total) = {
            let mut w = self.sim.w.borrow_mut();
            let st = &mut w.st[s];
            st.req_buf.extend_from_slice(&data);
            st.req_total += data.len();
            st.req_buf_visible = true;
            (st.req_buf.len(), st.req_total)
        };
        self.cb(s, Cb::ReqBody { total, eos }, |d, id| Some(d.on_request_body(id, size, eos)));
    }
    fn req_trailers(&mut self, s: usize) { self.cb(s, Cb::ReqTrl, |d, id| Some(d.on_request_trailers(id, 1))); }

    fn check_guard(&mut self, s: usize, what: &str) {
        let out = self.guards_out(s);
        if !out.is_empty() { self.sim.w.borrow_mut().violate(&["P01"], format!("stream {s}: {what} forwarded upstream while guard {out:?} has not answered")); }
        let w = &mut *self.sim.w.borrow_mut();
        if w.st[s].local.is_some() { w.violate(&["P02", "P01"], format!("stream {s}: {what} forwarded upstream after a local reply was sent")); }
    }
    fn forward_req_headers(&mut self, s: usize) {
        self.check_guard(s, "request headers");
        let (p, eos, now) = {
            let mut w = self.sim.w.borrow_mut();
            let now = w.now;
            let p = w.plan.streams[s].clone();
            let eos = p.body.is_none() && !p.trailers;
            let st = &mut w.st[s];
            st.req_hold = Hold::No;
            st.req_avail = false;
            st.req_fwd_hdrs = Some(st.req_hdrs.clone());
            if eos { st.req_complete = true; }
            (p, eos, now)
        };
        if (p.upstream.early || eos) && !self.sim.w.borrow().st[s].up_scheduled {
            self.sim.w.borrow_mut().st[s].up_scheduled = true;
            self.at(now + p.upstream.delay, Ev::UpHdr(s));
        }
        let (any, data, qeos, trl) = { let mut w = self.sim.w.borrow_mut(); let st = &mut w.st[s]; (std::mem::take(&mut st.req_queue_any), std::mem::take(&mut st.req_queue), std::mem::take(&mut st.req_queue_eos), std::mem::take(&mut st.req_queue_trl)) };
        if any { self.deliver_req(s, data, qeos); }
        let ok = { let w = self.sim.w.borrow(); w.st[s].alive && !w.st[s].req_stopped };
        if trl && ok { self.req_trailers(s); }
    }
    fn forward_req_body(&mut self, s: usize) {
        self.check_guard(s, "request body data");
        let eos = {
            let mut w = self.sim.w.borrow_mut();
            let p_trl = w.plan.streams[s].trailers;
            let st = &mut w.st[s];
            let b = std::mem::take(&mut st.req_buf);
            st.up_body.extend_from_slice(&b);
            st.req_buf_visible = false;
            st.req_hold = Hold::No;
            st.req_eos_seen && !p_trl
        };
        if eos { self.req_done(s); }
    }
    fn forward_req_trailers(&mut self, s: usize) {
        self.check_guard(s, "request trailers");
        { let mut w = self.sim.w.borrow_mut(); let st = &mut w.st[s]; let b = std::mem::take(&mut st.req_buf); st.up_body.extend_from_slice(&b); st.req_buf_visible = false; st.req_hold = Hold::No; }
        self.req_done(s);
    }
    fn req_done(&mut self, s: usize) {
        let (sched, delay, now) = { let mut w = self.sim.w.borrow_mut(); w.st[s].req_complete = true; let sc = w.st[s].up_scheduled; w.st[s].up_scheduled = true; (sc, w.plan.streams[s].upstream.delay, w.now) };
        if !sched { self.at(now + delay, Ev::UpHdr(s)); }
    }
    fn resume_req(&mut self, s: usize) {
        let hold = self.sim.w.borrow().st[s].req_hold;
        match hold {
            Hold::No => {}
            Hold::Headers => self.forward_req_headers(s),
            Hold::Body => self.forward_req_body(s),
            Hold::Trailers => self.forward_req_trailers(s),
        }
    }

    fn up_hdr(&mut self, s: usize) {
        let (p, ok, now) = { let w = self.sim.w.borrow(); let st = &w.st[s]; (w.plan.streams[s].clone(), st.alive && st.local.is_none(), w.now) };
        if !ok { return }
        let u = &p.upstream;
        let eos = u.body.is_empty() && !u.bare_eos && !u.trailers;
        { let mut w = self.sim.w.borrow_mut(); let st = &mut w.st[s]; st.resp_started = true; st.resp_hdrs = full_resp_headers(u); st.resp_avail = true; st.resp_eos_seen = eos; }
        if !eos {
            let mut k = 0;
            if !u.body.is_empty() || u.bare_eos { for _ in chunks(&u.body, &u.splits, u.bare_eos) { self.at(now + (k as u64 + 1) * u.gap, Ev::UpData(s, k)); k += 1; } }
            if u.trailers { self.at(now + (k as u64 + 1) * u.gap, Ev::UpData(s, usize::MAX)); }
        }
        let n = u.headers.len() + 1;
        self.cb(s, Cb::RespHdr { eos, local: false }, |d, id| Some(d.on_response_headers(id, n, eos)));
    }
    fn up_data(&mut self, s: usize, k: usize) {
        let (p, ok, held) = { let w = self.sim.w.borrow(); let st = &w.st[s]; (w.plan.streams[s].clone(), st.alive && st.local.is_none(), st.resp_hold == Hold::Headers) };
        if !ok { return }
        let u = &p.upstream;
        if k == usize::MAX {
            self.sim.w.borrow_mut().st[s].resp_eos_seen = true;
            if held { self.sim.w.borrow_mut().st[s].resp_queue_trl = true; return }
            return self.resp_trailers(s);
        }
        let ch = chunks(&u.body, &u.splits, u.bare_eos);
        let eos = k + 1 == ch.len() && !u.trailers;
        if eos { self.sim.w.borrow_mut().st[s].resp_eos_seen = true; }
        if held {
            let mut w = self.sim.w.borrow_mut();
            let st = &mut w.st[s];
            st.resp_queue.extend_from_slice(&ch[k]);
            st.resp_queue_any = true;
            st.resp_queue_eos |= eos;
            return;
        }
        self.deliver_resp(s, ch[k].clone(), eos, false);
    }
    fn deliver_resp(&mut self, s: usize, data: Vec<u8>, eos: bool, local: bool) {
        let (size, total) = {
            let mut w = self.sim.w.borrow_mut();
            let st = &mut w.st[s];
            st.resp_buf.extend_from_slice(&data);
            st.resp_total += data.len();
            st.resp_buf_visible = true;
            (st.resp_buf.len(), st.resp_total)
        };
        self.cb(s, Cb::RespBody { total, eos, local }, |d, id| Some(d.on_response_body(id, size, eos)));
    }
    fn resp_trailers(&mut self, s: usize) { self.cb(s, Cb::RespTrl, |d, id| Some(d.on_response_trailers(id, 1))); }

    fn forward_resp_headers(&mut self, s: usize, _eos: bool) {
        let (eos, any, data, qeos, trl, local) = {
            let mut w = self.sim.w.borrow_mut();
            let p = w.plan.streams[s].clone();
            let st = &mut w.st[s];
            if st.cl_status.is_some() { return }
            st.resp_hold = Hold::No;
            st.resp_avail = false;
            st.cl_status = Some(st.resp_hdrs.clone());
            st.answered_early = !st.req_complete;
            let local = st.local.is_some();
            let eos = if local { st.local.as_ref().unwrap().body.is_empty() } else { let u = &p.upstream; u.body.is_empty() && !u.bare_eos && !u.trailers };
            (eos, std::mem::take(&mut st.resp_queue_any), std::mem::take(&mut st.resp_queue), std::mem::take(&mut st.resp_queue_eos), std::mem::take(&mut st.resp_queue_trl), local)
        };
        if eos { return self.resp_done(s) }
        if any { self.deliver_resp(s, data, qeos, local); }
        if trl && self.sim.w.borrow().st[s].alive { self.resp_trailers(s); }
    }
    fn forward_resp_body(&mut self, s: usize) {
        let eos = {
            let mut w = self.sim.w.borrow_mut();
            let trl = w.plan.streams[s].upstream.trailers;
            let st = &mut w.st[s];
            let b = std::mem::take(&mut st.resp_buf);
            st.cl_body.extend_from_slice(&b);
            st.resp_buf_visible = false;
            st.resp_hold = Hold::No;
            st.resp_eos_seen && (st.local.is_some() || !trl)
        };
        if eos { self.resp_done(s); }
    }
    fn forward_resp_end(&mut self, s: usize) {
        { let mut w = self.sim.w.borrow_mut(); let st = &mut w.st[s]; let b = std::mem::take(&mut st.resp_buf); st.cl_body.extend_from_slice(&b); st.resp_buf_visible = false; st.resp_hold = Hold::No; }
        self.resp_done(s);
    }
    fn resume_resp(&mut self, s: usize) {
        let hold = self.sim.w.borrow().st[s].resp_hold;
        match hold {
            Hold::No => {}
            Hold::Headers => self.forward_resp_headers(s, false),
            Hold::Body => self.forward_resp_body(s),
            Hold::Trailers => self.forward_resp_end(s),
        }
    }
    fn resp_done(&mut self, s: usize) {
        {
            let mut w = self.sim.w.borrow_mut();
            w.st[s].cl_done = true;
            let out: Vec<String> = w.calls.iter().filter(|c| c.stream == Some(s) && c.kind == CallKind::Action && !c.failed && c.settled.is_none()).map(|c| c.act.clone()).collect();
            if !out.is_empty() && w.st[s].local.is_none() && w.plan.exact {
                w.violate(&["P09", "P04"], format!("stream {s}: response completed, destroying the stream, while calls {out:?} were outstanding"));
            }
        }
        self.finish(s);
    }
    fn finish(&mut self, s: usize) {
        if !self.sim.w.borrow().st[s].alive { return }
        let id = s as u32 + 2;
        {
            let mut w = self.sim.w.borrow_mut();
            let now = w.now;
            w.st[s].alive = false;
            w.st[s].ended = Some(now);
            for c in w.calls.iter_mut() { if c.stream == Some(s) && c.settled.is_none() { c.cancelled = true; } }
            w.cur = None;
        }
        self.guarded(|d| { d.on_done(id); d.delete(id); });
        self.after();
        let r = { let mut w = self.sim.w.borrow_mut(); w.deleted.insert(id); w.st[s].root };
        self.retire(r);
    }

    fn apply_local(&mut self, s: usize, r: LocalReply) {
        let direct = {
            let mut w = self.sim.w.borrow_mut();
            if !w.st[s].alive { return }
            if w.st[s].local.is_some() {
                w.violate(&["P02"], format!("stream {s}: a second local reply ({}) was sent", r.status));
                return;
            }
            let st = &mut w.st[s];
            st.local = Some(r.clone());
            st.req_stopped = true;
            st.req_hold = Hold::No;
            if st.cl_status.is_some() {
                st.reset = true;
                // (an upstream that answers a request it has not got yet must expect that)
                if !w.st[s].answered_early { w.violate(&["P03"], format!("stream {s}: local reply {} after the response headers had reached the client: the response is broken off", r.status)); }
                None
            } else if st.resp_started { st.local_direct = true; Some(true) } else { Some(false) }
        };
        match direct {
            None => self.finish(s),
            Some(true) => {
                { let mut w = self.sim.w.borrow_mut(); let st = &mut w.st[s]; let mut h: Hdrs = vec![(":status".into(), r.status.to_string())]; h.extend(r.headers.clone()); st.cl_status = Some(h); st.cl_body = r.body.clone(); st.cl_done = true; }
                self.finish(s)
            }
            Some(false) => {
                let eos = r.body.is_empty();
                let n = {
                    let mut w = self.sim.w.borrow_mut();
                    let st = &mut w.st[s];
                    let mut h: Hdrs = vec![(":status".into(), r.status.to_string())];
                    h.extend(r.headers.clone());
                    st.resp_hdrs = h;
                    st.resp_avail = true;
                    st.resp_started = true;
                    st.resp_eos_seen = true;
                    st.resp_hdrs.len()
                };
                if !eos {
                    let mut w = self.sim.w.borrow_mut();
                    w.st[s].resp_queue = r.body.clone();
                    w.st[s].resp_queue_any = true;
                    w.st[s].resp_queue_eos = true;
                }
                self.cb(s, Cb::RespHdr { eos, local: true }, |d, id| Some(d.on_response_headers(id, n, eos)));
            }
        }
    }
}
