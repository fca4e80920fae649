//! The reference model: what one request's policy evaluation must do at every callback. It is a small
//! nondeterministic machine (the only free choice is how early, once the bytes are there, a streamed body value
//! becomes known); the recorded execution has to be one of its behaviours.
use crate::host::*;
use crate::plan::*;
use crate::wire::*;
use prost::Message;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Lit {
    Deny { status: u32, headers: Hdrs, body: String },
    Hdrs { response: bool, items: Hdrs },
    StoreAuth(BTreeMap<String, String>),
    Fail,
}

#[derive(Clone, Debug)]
enum K { T(Rc<Typed>), L(Rc<Legacy>, Rc<Svc>), Lit(Lit), Track(String), Usage(Vec<String>), ReqVals(Vec<String>) }

#[derive(Clone, Debug)]
struct Task { id: String, deps: Rc<Vec<String>>, fm: Option<(bool, bool)>, k: K, body_done: bool, begun: bool }

#[derive(Clone, Debug)]
struct Fl { task: Task, guard: bool, noop: bool, export: bool }

#[derive(Clone, Debug)]
pub struct S {
    built: bool,
    queue: Vec<Task>,
    flight: BTreeMap<usize, Fl>,
    done: BTreeSet<String>,
    terminated: bool,
    stored: BTreeMap<String, String>,
    auth: Option<BTreeMap<String, String>>,
    req_vals: BTreeMap<String, String>,
    resp_vals: BTreeMap<String, String>,
    req_total: usize,
    resp_total: usize,
    /// body bytes the host has let go of before this callback
    req_fwd: usize,
    resp_fwd: usize,
    req_eos: bool,
    resp_eos: bool,
    resp_phase: bool,
    req_open: bool,
    resp_open: bool,
    hdrs: Hdrs,
    rhdrs: Option<Hdrs>,
    bind: BTreeMap<String, (String, String, i64, Hdrs)>,
    /// body bytes this callback makes readable
    req_now: bool,
    resp_now: bool,
    nth: BTreeMap<&'static str, u32>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Pay {
    Dyn(DynReq),
    Rl(RlReq),
    Auth(Box<AuthReq>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct XDisp { pub act: String, pub cluster: String, pub service: String, pub method: String, pub timeout_ms: u64, pub pay: Pay, pub failed: bool }
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Eff {
    pub disp: Vec<XDisp>,
    pub replies: Vec<LocalReply>,
    pub props: Vec<(String, Vec<u8>)>,
    pub metrics: BTreeMap<String, i64>,
    /// hostcalls of the stream so far, by site
    nth: BTreeMap<&'static str, u32>,
}
impl Eff { fn m(&mut self, k: &str) { *self.metrics.entry(format!("kuadrant.{k}")).or_default() += 1; } }

enum Ev { Pend, Err, Ok(String) }
enum Pv { Pend, Err, Ok(bool) }
enum Out { Done, Failed, Requeue(Task), Deferred(usize, Fl), Children(Vec<Task>), Term(Option<LocalReply>) }

pub enum Sel<'a> { Miss, Empty, Set(&'a Set), Fallback, Err }

pub struct M<'a> {
    pub plan: &'a Plan,
    pub cfg: &'a Cfg,
    pub s: usize,
    pub p: &'a Stream,
    pub w: &'a W,
    pub id: Option<String>,
    pub unresolved: BTreeSet<(String, String)>,
}

fn route_pred(m_cfg: &Cfg, p: &Stream, pr: &Pred) -> Result<bool, ()> {
    let _ = m_cfg;
    let mut hard = false;
    pr.walk(&mut |e| if let Expr::Attr(a) = e { if p.faults.contains(&format!("prop:{}", attr_source(a))) { hard = true } });
    if hard { return Err(()) }
    static_pred(p, pr)
}
fn static_expr(p: &Stream, e: &Expr) -> Result<String, ()> {
    match e {
        Expr::Lit(s) => Ok(s.clone()),
        Expr::ReqHdr(k) => hdr_join(&full_headers(p), k).ok_or(()),
        Expr::Attr(a) => attr_text(p, a).ok_or(()),
        Expr::Cat(v) => v.iter().map(|e| static_expr(p, e)).collect::<Result<Vec<_>, _>>().map(|v| v.join("|")),
        _ => Err(()),
    }
}
fn static_pred(p: &Stream, pr: &Pred) -> Result<bool, ()> {
    match pr {
        Pred::True => Ok(true),
        Pred::False => Ok(false),
        Pred::Eq(e, s) => Ok(static_expr(p, e)? == *s),
        Pred::Ne(e, s) => Ok(static_expr(p, e)? != *s),
        Pred::And(a, b) => match (static_pred(p, a), static_pred(p, b)) { (Ok(false), _) | (_, Ok(false)) => Ok(false), (Ok(true), Ok(true)) => Ok(true), _ => Err(()) },
        Pred::Or(a, b) => match (static_pred(p, a), static_pred(p, b)) { (Ok(true), _) | (_, Ok(true)) => Ok(true), (Ok(false), Ok(false)) => Ok(false), _ => Err(()) },
        _ => Err(()),
    }
}

/// Which action set a request gets: most specific hostname, then the first whose conditions hold.
pub fn select<'a>(cfg: &'a Cfg, p: &Stream) -> Sel<'a> {
    if p.faults.iter().any(|f| f == "prop:request.host" || f == "get_property") { return Sel::Err }
    let host = p.host.split(':').next().unwrap_or("").to_ascii_lowercase();
    let mut best: Option<(usize, String)> = None;
    for s in &cfg.sets {
        for h in &s.hosts {
            let hl = h.to_ascii_lowercase();
            let rank = if hl == host { usize::MAX } else if let Some(suf) = hl.strip_prefix('*') { if host.ends_with(suf) && host.len() >= suf.len() { suf.len() } else { continue } } else { continue };
            if best.as_ref().map_or(true, |(r, _)| rank > *r) { best = Some((rank, hl)); }
        }
    }
    let Some((_, pat)) = best else { return Sel::Miss };
    for s in &cfg.sets {
        for h in &s.hosts {
            if h.to_ascii_lowercase() != pat { continue }
            let mut ok = true;
            for pr in &s.preds {
                match route_pred(cfg, p, pr) { Ok(true) => {} Ok(false) => { ok = false; break } Err(()) => return Sel::Err }
            }
            if ok { return if s.acts.is_empty() && cfg.ident.is_none() { Sel::Empty } else { Sel::Set(s) } }
        }
    }
    if cfg.ident.is_some() { Sel::Fallback } else { Sel::Miss }
}

fn collect_guards(id: &str, t: &Typed, out: &mut BTreeSet<String>) {
    if let Op::Grpc { on_reply, .. } = &t.op {
        if t.guard { out.insert(id.to_string()); }
        for (i, c) in on_reply.iter().enumerate() { collect_guards(&format!("{id}.{i}"), c, out); }
    }
}
/// Action ids of a stream's guards.
pub fn guards(plan: &Plan, cfg: usize, s: usize) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    let c = &plan.cfgs[cfg];
    if let Sel::Set(set) = select(c, &plan.streams[s]) {
        for (i, a) in set.acts.iter().enumerate() {
            match a {
                Act::T(t) => collect_guards(&i.to_string(), t, &mut out),
                Act::L(l) => if c.svcs.iter().any(|x| x.name == l.svc && x.kind != SvcKind::Report) { out.insert(i.to_string()); }
            }
        }
    }
    out
}

pub fn hdr_join(h: &Hdrs, k: &str) -> Option<String> {
    let v: Vec<&str> = h.iter().filter(|(a, _)| a == k).map(|(_, v)| v.as_str()).collect();
    if v.is_empty() { None } else { Some(lossy(&v.join(","))) }
}

/// A value that is there, and that `string()` refuses.
pub const NO_TEXT: &str = "\u{0}";
/// Value of a pointer in a JSON body, rendered the way `string()` does, and the number of bytes by which it is complete.
/// The outer `None`: nothing a value can be taken from; containers have no value.
pub fn json_ptr(body: &str, ptr: &str) -> Option<(String, usize)> {
    let v: serde_json::Value = serde_json::from_str(body).ok()?;
    let t = match v.pointer(ptr)? {
        serde_json::Value::String(s) => { if of_bytes(s) { return None } s.clone() }
        serde_json::Value::Number(n) => match (n.as_i64(), n.as_u64(), n.as_f64()) { (Some(i), ..) => i.to_string(), (_, Some(u), _) => u.to_string(), (.., Some(f)) => f.to_string(), _ => return None },
        serde_json::Value::Bool(_) | serde_json::Value::Null => NO_TEXT.to_string(),
        _ => return None,
    };
    let mut end = 0;
    let b: Vec<char> = body.chars().collect();
    json_end(&b, &mut 0, &mut String::new(), ptr, &mut end);
    Some((t, b[..end].iter().map(|&c| if of_bytes(c.encode_utf8(&mut [0; 4])) { 1 } else { c.len_utf8() }).sum()))
}
/// A string whose bytes are no text.
fn json_no_text(body: &str, ptr: &str) -> bool { serde_json::from_str::<serde_json::Value>(body).ok().and_then(|v| v.pointer(ptr).and_then(|v| v.as_str().map(of_bytes))).unwrap_or(false) }
/// Where the value at `ptr` ends in a well-formed document.
fn json_end(b: &[char], i: &mut usize, path: &mut String, ptr: &str, end: &mut usize) {
    let ws = |i: &mut usize| while *i < b.len() && b[*i].is_ascii_whitespace() { *i += 1 };
    let text = |i: &mut usize| -> String { let st = *i; *i += 1; while b[*i] != '"' { if b[*i] == '\\' { *i += 1 } *i += 1 } *i += 1; b[st..*i].iter().collect() };
    ws(i);
    match b[*i] {
        '{' => {
            *i += 1;
            loop {
                ws(i);
                if b[*i] == '}' { *i += 1; return }
                if b[*i] == ',' { *i += 1; continue }
                let k: String = serde_json::from_str(&text(i)).unwrap_or_default();
                ws(i);
                *i += 1;
                let n = path.len();
                path.push('/');
                path.push_str(&k.replace('~', "~0").replace('/', "~1"));
                json_end(b, i, path, ptr, end);
                path.truncate(n);
            }
        }
        '[' => {
            *i += 1;
            let mut k = 0;
            loop {
                ws(i);
                if b[*i] == ']' { *i += 1; return }
                if b[*i] == ',' { *i += 1; k += 1; continue }
                let n = path.len();
                path.push_str(&format!("/{k}"));
                json_end(b, i, path, ptr, end);
                path.truncate(n);
            }
        }
        '"' => { text(i); if path == ptr { *end = *i } }
        _ => { while *i < b.len() && !matches!(b[*i], ',' | '}' | ']') && !b[*i].is_ascii_whitespace() { *i += 1 } if path == ptr { *end = *i } }
    }
}
/// The data of the next-to-last event of an event stream, read the way the HTML specification says.
pub fn sse_doc(body: &str) -> Option<String> {
    let body = lossy(body);
    let body = body.strip_prefix('\u{feff}').unwrap_or(&body).replace("\r\n", "\n").replace('\r', "\n");
    let (mut ev, mut data): (Vec<String>, Option<String>) = (vec![], None);
    // what follows the last line end is no line
    for l in body.split_inclusive('\n').filter_map(|l| l.strip_suffix('\n')) {
        if l.is_empty() { ev.extend(data.take()); continue }
        let (k, v) = l.split_once(':').unwrap_or((l, ""));
        if k == "data" { let v = v.strip_prefix(' ').unwrap_or(v); data = Some(match data { None => v.to_string(), Some(d) => format!("{d}\n{v}") }); }
    }
    if ev.len() < 2 { return None }
    Some(ev[ev.len() - 2].clone())
}
fn is_sse(u: &Upstream) -> bool { u.headers.iter().find(|(k, _)| k == "content-type").is_some_and(|(_, v)| v.to_ascii_lowercase().contains("text/event-stream")) }

fn body_ptrs<'a>(t: &'a Typed) -> (Vec<String>, Vec<String>) {
    let (mut q, mut r) = (vec![], vec![]);
    let mut f = |e: &Expr| match e { Expr::ReqBody(p) => q.push(p.clone()), Expr::RespBody(p) => r.push(p.clone()), _ => {} };
    t.pred.walk(&mut |e| f(e));
    if let Op::Store { value, .. } = &t.op { value.walk(&mut |e| f(e)); }
    (q, r)
}
/// What an action and what follows its reply look for in the request body.
fn req_ptrs_deep(t: &Typed, out: &mut BTreeSet<String>) {
    let mut f = |e: &Expr| if let Expr::ReqBody(p) = e { out.insert(p.clone()); };
    t.pred.walk(&mut |e| f(e));
    match &t.op {
        Op::Grpc { a, b, on_reply, .. } => { a.walk(&mut |e| f(e)); b.walk(&mut |e| f(e)); for c in on_reply { req_ptrs_deep(c, out) } }
        Op::Deny { headers, body, .. } => { for (_, e) in headers { e.walk(&mut |e| f(e)) } body.walk(&mut |e| f(e)) }
        Op::Headers { items, .. } => for (_, e) in items { e.walk(&mut |e| f(e)) },
        Op::Store { value, .. } => value.walk(&mut |e| f(e)),
        Op::Fail => {}
    }
}
fn resp_ptrs_deep(t: &Typed, out: &mut BTreeSet<String>) {
    let mut f = |e: &Expr| if let Expr::RespBody(p) = e { out.insert(p.clone()); };
    t.pred.walk(&mut |e| f(e));
    match &t.op {
        Op::Grpc { a, b, on_reply, .. } => { a.walk(&mut |e| f(e)); b.walk(&mut |e| f(e)); for c in on_reply { resp_ptrs_deep(c, out) } }
        Op::Deny { headers, body, .. } => { for (_, e) in headers { e.walk(&mut |e| f(e)) } body.walk(&mut |e| f(e)) }
        Op::Headers { items, .. } => for (_, e) in items { e.walk(&mut |e| f(e)) },
        Op::Store { value, .. } => value.walk(&mut |e| f(e)),
        Op::Fail => {}
    }
}

pub fn domain_and_field(name: &str) -> (String, String) {
    let cut = name.char_indices().rfind(|(_, c)| c.is_alphabetic()).map(|(i, _)| i).unwrap_or(0);
    match name[..cut].rfind('.') { Some(i) if i > 0 => (name[..i].into(), name[i + 1..].into()), _ => (String::new(), name.into()) }
}

pub fn str_value(v: &str) -> Vec<u8> {
    prost_types::Value { kind: Some(prost_types::value::Kind::StringValue(v.into())) }.encode_to_vec()
}
pub fn map_struct(m: &BTreeMap<String, String>) -> Vec<u8> {
    prost_types::Struct { fields: m.iter().map(|(k, v)| (k.clone(), prost_types::Value { kind: Some(prost_types::value::Kind::StringValue(v.clone())) })).collect() }.encode_to_vec()
}

pub fn deps_of(acts: &[Act]) -> Vec<Vec<String>> {
    let (mut fence, mut par): (Vec<String>, Vec<String>) = (vec![], vec![]);
    let mut out = vec![];
    for (i, a) in acts.iter().enumerate() {
        match a {
            Act::L(_) => { out.push(if i > 0 { vec![(i - 1).to_string()] } else { vec![] }); par.push(i.to_string()); }
            Act::T(t) if t.seq => { out.push(fence.iter().chain(&par).cloned().collect()); fence = vec![i.to_string()]; par.clear(); }
            Act::T(_) => { out.push(fence.clone()); par.push(i.to_string()); }
        }
    }
    out
}

impl<'a> M<'a> {
    fn svc(&self, n: &str) -> Option<&Svc> { self.cfg.svcs.iter().find(|s| s.name == n) }
    fn fault(&self, f: &str) -> bool {
        // an attribute whose bytes are no text can't be read either
        self.p.faults.iter().any(|x| x == f) || f.strip_prefix("prop:").is_some_and(|a| matches!(attr(self.p, a), Some(AttrVal::S(v)) if of_bytes(&v)))
    }

    /// a hostcall that works but for the faults of the stream: all of its kind, or the n-th one
    fn refused(&self, site: &'static str, fx: &mut Eff) -> bool {
        let n = fx.nth.entry(site).or_default();
        *n += 1;
        self.fault(site) || self.fault(&format!("{site}@{n}"))
    }

    fn grpc_deny(&self, svc: &str) -> bool { self.svc(svc).map(|s| s.deny).unwrap_or(false) }

    fn children(&self, id: &str, on_reply: &[Typed], outer: Option<(bool, bool)>) -> Vec<Task> {
        on_reply.iter().enumerate().map(|(i, c)| {
            let fm = match &c.op { Op::Grpc { svc, .. } => Some((self.grpc_deny(svc), true)), _ => outer };
            Task { id: format!("{id}.{i}"), deps: Rc::new(vec![]), fm, k: K::T(Rc::new(c.clone())), body_done: false, begun: false }
        }).collect()
    }

    /// Paths some live task may still store.
    fn pending_path(&self, s: &S, path: &str) -> bool {
        fn deep(t: &Typed, path: &str) -> bool {
            match &t.op { Op::Store { path: p, .. } => p == path, Op::Grpc { on_reply, .. } => on_reply.iter().any(|c| deep(c, path)), _ => false }
        }
        let hit = |t: &Task, noop: bool| -> bool {
            if noop { return false }
            match &t.k {
                K::T(x) => deep(x, path),
                K::L(_, svc) => path == "auth" && svc.kind == SvcKind::Auth,
                K::Lit(Lit::StoreAuth(_)) => path == "auth",
                _ => false,
            }
        };
        s.queue.iter().any(|t| hit(t, false)) || s.flight.values().any(|f| hit(&f.task, f.noop))
    }

    // ---- evaluation
    /// A value is not in a body that has been seen to its end.
    fn lacks(&self, s: &S, es: &[&Expr], ps: &[&Pred]) -> bool {
        let mut hit = false;
        let mut f = |e: &Expr| match e {
            Expr::ReqBody(p) => hit |= s.req_eos && !s.req_vals.contains_key(p),
            Expr::RespBody(p) => hit |= s.resp_eos && !s.resp_vals.contains_key(p),
            _ => {}
        };
        for e in es { e.walk(&mut |x| f(x)) }
        for p in ps { p.walk(&mut |x| f(x)) }
        hit
    }
    fn scan(&self, s: &S, walk: &dyn Fn(&mut dyn FnMut(&Expr)), extra_live: &Task) -> Option<bool> {
        // None: evaluable; Some(true): hard error; Some(false): pending
        let (mut hard, mut pend) = (false, false);
        walk(&mut |e| match e {
            Expr::Attr(a) => if self.fault(&format!("prop:{}", attr_source(a))) { hard = true },
            Expr::Stored(p) => {
                let root = if p.starts_with("auth.") { "auth" } else { p.as_str() };
                let have = if root == "auth" { s.auth.is_some() } else { s.stored.contains_key(root) };
                let own = matches!(&extra_live.k, K::T(t) if matches!(&t.op, Op::Store { path, .. } if path == root));
                if !have && (own || self.pending_path(s, root)) { pend = true }
            }
            Expr::RespBody(p) => if !s.resp_vals.contains_key(p) { pend = true },
            Expr::ReqBody(p) => if !s.req_vals.contains_key(p) { pend = true },
            _ => {}
        });
        if hard { Some(true) } else if pend { Some(false) } else { None }
    }
    fn resolve(&self, s: &S, tid: &str, e: &Expr) -> Result<String, ()> {
        match e {
            Expr::Lit(v) => Ok(v.clone()),
            Expr::ReqHdr(k) => hdr_join(&s.hdrs, k).ok_or(()),
            Expr::Attr(a) => attr_text(self.p, a).ok_or(()),
            Expr::ReqBody(p) => s.req_vals.get(p).filter(|v| *v != NO_TEXT).cloned().ok_or(()),
            Expr::RespBody(p) => s.resp_vals.get(p).filter(|v| *v != NO_TEXT).cloned().ok_or(()),
            Expr::Tag(v) => self.binding(s, tid, v).map(|b| b.1.clone()).ok_or(()),
            Expr::Code(v) => self.binding(s, tid, v).map(|b| b.2.to_string()).ok_or(()),
            Expr::Rep(v, k) => self.binding(s, tid, v).map(|b| rep_text(*k, v, &b.1, b.2).1).ok_or(()),
            Expr::Stored(p) => match p.strip_prefix("auth.") { Some(k) => s.auth.as_ref().and_then(|m| m.get(k)).cloned().ok_or(()), None => s.stored.get(p).cloned().ok_or(()) },
            Expr::Cat(v) => v.iter().map(|e| self.resolve(s, tid, e)).collect::<Result<Vec<_>, _>>().map(|v| v.join("|")),
        }
    }
    /// Headers of a reply and of an action's own.
    fn join(&self, s: &S, tid: &str, from: &Option<crate::plan::From>, own: Hdrs) -> Option<Hdrs> {
        let Some(f) = from else { return Some(own) };
        let theirs = self.binding(s, tid, &f.var)?.3.clone();
        Some(if f.first { theirs.into_iter().chain(own).collect() } else { own.into_iter().chain(theirs).collect() })
    }
    fn binding<'b>(&self, s: &'b S, tid: &str, var: &str) -> Option<&'b (String, String, i64, Hdrs)> {
        s.bind.iter().filter(|(sc, b)| b.0 == var && (tid == sc.as_str() || tid.starts_with(&format!("{sc}.")))).map(|(_, b)| b).last()
    }
    fn rpred(&self, s: &S, tid: &str, p: &Pred) -> Result<bool, ()> {
        match p {
            Pred::True => Ok(true),
            Pred::False => Ok(false),
            Pred::Eq(e, v) => Ok(self.resolve(s, tid, e)? == *v),
            Pred::Ne(e, v) => Ok(self.resolve(s, tid, e)? != *v),
            Pred::CodeIs(v, n) => self.binding(s, tid, v).map(|b| b.2 == *n).ok_or(()),
            Pred::CodeGe(v, n) => self.binding(s, tid, v).map(|b| b.2 >= *n).ok_or(()),
            Pred::And(a, b) => match (self.rpred(s, tid, a), self.rpred(s, tid, b)) { (Ok(false), _) | (_, Ok(false)) => Ok(false), (Ok(true), Ok(true)) => Ok(true), _ => Err(()) },
            Pred::Or(a, b) => match (self.rpred(s, tid, a), self.rpred(s, tid, b)) { (Ok(true), _) | (_, Ok(true)) => Ok(true), (Ok(false), Ok(false)) => Ok(false), _ => Err(()) },
            Pred::Broken => Err(()),
        }
    }
    fn pred(&self, s: &S, t: &Task, p: &Pred) -> Pv {
        match self.scan(s, &|f| p.walk(&mut |e| f(e)), t) {
            Some(true) => Pv::Err,
            Some(false) => Pv::Pend,
            None => match self.rpred(s, &t.id, p) { Ok(b) => Pv::Ok(b), Err(()) => Pv::Err },
        }
    }
    fn exprs(&self, s: &S, t: &Task, es: &[&Expr]) -> Result<Option<Vec<String>>, ()> {
        match self.scan(s, &|f| for e in es { e.walk(&mut |x| f(x)) }, t) {
            Some(true) => Err(()),
            Some(false) => Ok(None),
            None => es.iter().map(|e| self.resolve(s, &t.id, e)).collect::<Result<Vec<_>, _>>().map(Some),
        }
    }
    fn one(&self, s: &S, t: &Task, e: &Expr) -> Ev { match self.exprs(s, t, &[e]) { Err(()) => Ev::Err, Ok(None) => Ev::Pend, Ok(Some(v)) => Ev::Ok(v[0].clone()) } }

    fn reply500(&self, fx: &mut Eff) -> LocalReply {
        fx.m("denied");
        self.tracked(500, vec![], "Internal Server Error.\n")
    }
    fn tracked(&self, status: u32, mut headers: Hdrs, body: &str) -> LocalReply {
        if let (Some(h), Some(id)) = (&self.cfg.ident, &self.id) { headers.push((h.clone(), id.clone())); }
        for h in &mut headers { h.0.make_ascii_lowercase(); }
        LocalReply { status, headers, body: body.as_bytes().to_vec() }
    }

    /// Body values a task needs and whether they are known now: branches over when streaming extraction finishes.
    fn body_gate(&self, s: &S, t: &Task, typed: &Typed) -> Vec<(S, Option<bool>)> {
        // Some(true): go on; Some(false): failed; None: wait
        let (q, r) = body_ptrs(typed);
        if q.is_empty() && r.is_empty() { return vec![(s.clone(), Some(true))] }
        if t.body_done { return vec![(s.clone(), Some(true))] }
        let req = !q.is_empty();
        let ptrs: BTreeSet<String> = if req { q } else { r }.into_iter().collect();
        if !req && !s.resp_phase { return vec![(s.clone(), None)] }
        if !req && s.rhdrs.is_none() { return vec![(s.clone(), None)] }
        let (eos, total) = if req { (s.req_eos, s.req_total) } else { (s.resp_eos, s.resp_total) };
        // its beginning is gone: the values are those taken from it meanwhile
        if !t.begun && (if req { s.req_fwd } else { s.resp_fwd }) > 0 { return vec![(s.clone(), Some(true))] }
        let body = if req { self.p.body.clone().unwrap_or_default() } else { self.p.upstream.body.clone() };
        let doc = if !req && is_sse(&self.p.upstream) { sse_doc(&body).unwrap_or_default() } else { body.clone() };
        let sse = !req && is_sse(&self.p.upstream);
        let mut vals: Option<Vec<(String, String, usize)>> = Some(vec![]);
        for p in &ptrs { match (json_ptr(&doc, p), vals.as_mut()) { (Some((v, e)), Some(l)) => l.push((p.clone(), v, e)), _ => vals = None } }
        let mut out = vec![];
        let set = |s: &S, vals: &[(String, String, usize)]| { let mut n = s.clone(); for (p, v, _) in vals { if req { n.req_vals.insert(p.clone(), v.clone()); } else { n.resp_vals.insert(p.clone(), v.clone()); } } n };
        let now = if req { s.req_now } else { s.resp_now };
        match vals {
            Some(v) => {
                let ready = !sse && v.iter().all(|(_, _, e)| total >= *e);
                if eos { out.push((set(s, &v), Some(true))) } else {
                    out.push((s.clone(), None));
                    if ready && now { out.push((set(s, &v), Some(true))); }
                }
            }
            None => {
                if eos { out.push((s.clone(), Some(false))) } else {
                    out.push((s.clone(), None));
                    if total > 0 && now { out.push((s.clone(), Some(false))); }
                }
            }
        }
        out
    }

    /// One task, now. Every way it may go.
    fn apply(&self, s: &S, t: Task, rec: &Rec, fx: &Eff) -> Vec<(S, Eff, Out)> {
        let (s, mut fx) = (s.clone(), fx.clone());
        match t.k.clone() {
            K::Lit(l) => {
                let (mut s, mut fx) = (s, fx);
                let o = match l {
                    Lit::Deny { status, headers, body } => { fx.m("denied"); Out::Term(Some(self.tracked(status, headers, &body))) }
                    Lit::Fail => { fx.m("errors"); let r = self.reply500(&mut fx); Out::Term(Some(r)) }
                    Lit::Hdrs { response, items } => {
                        if items.is_empty() { Out::Done } else { match self.set_headers(&mut s, &mut fx, response, &items) { Some(true) => Out::Done, Some(false) => Out::Failed, None => Out::Requeue(t) } }
                    }
                    Lit::StoreAuth(m) => {
                        if self.refused("set_property", &mut fx) { Out::Failed } else {
                            fx.props.push(("kuadrant.auth".into(), map_struct(&m)));
                            s.auth = Some(m);
                            Out::Done
                        }
                    }
                };
                vec![(s, fx, o)]
            }
            K::Track(h) => {
                let mut s = s;
                let items = vec![(h, self.id.clone().unwrap_or_default())];
                let o = match self.set_headers(&mut s, &mut fx, true, &items) { Some(true) => Out::Done, Some(false) => Out::Failed, None => Out::Requeue(t) };
                vec![(s, fx, o)]
            }
            K::Usage(ptrs) => {
                let mut s = s;
                if s.rhdrs.is_none() || !s.resp_eos { return vec![(s, fx, Out::Requeue(t))] }
                let u = &self.p.upstream;
                let doc = if is_sse(u) { sse_doc(&u.body).unwrap_or_default() } else { u.body.clone() };
                for p in ptrs { if let Some((v, _)) = json_ptr(&doc, &p) { s.resp_vals.insert(p, v); } }
                vec![(s, fx, Out::Done)]
            }
            // what an action looks for in the request body is taken from it as it comes by
            K::ReqVals(ptrs) => {
                let body = self.p.body.clone().unwrap_or_default();
                let found: Vec<(String, String, usize)> = ptrs.iter().filter_map(|p| json_ptr(&body, p).map(|(v, e)| (p.clone(), v, e))).collect();
                let spoilt = ptrs.iter().any(|p| json_no_text(&body, p));
                let set = |s: &S| { let mut n = s.clone(); if !spoilt { for (p, v, _) in &found { n.req_vals.insert(p.clone(), v.clone()); } } n };
                if s.req_eos { return vec![(set(&s), fx, Out::Done)] }
                let mut out = vec![(s.clone(), fx.clone(), Out::Requeue(t.clone()))];
                if s.req_now && !spoilt && !found.is_empty() && found.iter().all(|(_, _, e)| s.req_total >= *e) {
                    out.push((set(&s), fx, if found.len() == ptrs.len() { Out::Done } else { Out::Requeue(t) }));
                }
                out
            }
            K::L(l, svc) => { let o = self.legacy(&s, &l, &svc, &t, rec, &mut fx); vec![(s, fx, o)] }
            K::T(typed) => match &typed.op {
                Op::Grpc { svc, a, b, on_reply, rich, .. } => {
                    match self.pred(&s, &t, &typed.pred) {
                        Pv::Pend => { let o = if self.lacks(&s, &[], &[&typed.pred]) { Out::Failed } else { Out::Requeue(t) }; return vec![(s, fx, o)] }
                        Pv::Ok(false) => return vec![(s, fx, Out::Done)],
                        Pv::Err => return vec![(s, fx, Out::Failed)],
                        Pv::Ok(true) => {}
                    }
                    let sid = Expr::ReqHdr("x-sid".into());
                    let v = match self.exprs(&s, &t, &[&sid, a, b]) {
                        Err(()) => return vec![(s, fx, Out::Failed)],
                        Ok(None) => { let o = if self.lacks(&s, &[a, b], &[]) { Out::Failed } else { Out::Requeue(t) }; return vec![(s, fx, o)] }
                        Ok(Some(v)) => v,
                    };
                    let Some(sv) = self.svc(svc) else { return vec![(s, fx, Out::Failed)] };
                    if self.unresolved.contains(&(sv.endpoint.clone(), sv.grpc.clone())) { return vec![(s, fx, Out::Failed)] }
                    let _ = on_reply;
                    let mut m = DynReq { act: t.id.clone(), sid: v[0].clone(), a: v[1].clone(), b: v[2].clone(), ..Default::default() };
                    if !rich.iter().all(|r| r.put(&v[2], &|x| self.binding(&s, &t.id, x).map(|b| (b.1.clone(), b.2)), &mut m)) { return vec![(s, fx, Out::Failed)] }
                    let pay = Pay::Dyn(m);
                    let o = self.dispatch(&t.id.clone(), sv, sv.method(), pay, typed.guard, t, rec, &mut fx);
                    vec![(s, fx, o)]
                }
                Op::Deny { status, headers, body, wrong, from } => {
                    match self.pred(&s, &t, &typed.pred) {
                        Pv::Pend => { let o = if self.lacks(&s, &[], &[&typed.pred]) { Out::Failed } else { Out::Requeue(t) }; return vec![(s, fx, o)] }
                        Pv::Ok(false) => return vec![(s, fx, Out::Done)],
                        Pv::Err => return vec![(s, fx, Out::Failed)],
                        Pv::Ok(true) => {}
                    }
                    let mut es: Vec<&Expr> = headers.iter().map(|(_, e)| e).collect();
                    es.push(body);
                    let o = match self.exprs(&s, &t, &es) {
                        Ok(Some(v)) if *wrong == 0 => {
                            let Some(hs) = self.join(&s, &t.id, from, headers.iter().zip(&v).map(|((k, _), v)| (k.clone(), v.clone())).collect()) else { return vec![(s, fx, Out::Failed)] };
                            fx.m("denied");
                            Out::Term(Some(self.tracked(*status, hs, v.last().unwrap())))
                        }
                        _ => Out::Failed,
                    };
                    vec![(s, fx, o)]
                }
                Op::Headers { response, items, from } => {
                    match self.pred(&s, &t, &typed.pred) {
                        Pv::Pend => { let o = if self.lacks(&s, &[], &[&typed.pred]) { Out::Failed } else { Out::Requeue(t) }; return vec![(s, fx, o)] }
                        Pv::Ok(false) => return vec![(s, fx, Out::Done)],
                        Pv::Err => return vec![(s, fx, Out::Failed)],
                        Pv::Ok(true) => {}
                    }
                    let es: Vec<&Expr> = items.iter().map(|(_, e)| e).collect();
                    let mut s = s;
                    let o = match self.exprs(&s, &t, &es) {
                        Err(()) => Out::Failed,
                        Ok(None) => if self.lacks(&s, &es, &[]) { Out::Failed } else { Out::Requeue(t) },
                        Ok(Some(v)) => {
                            let Some(it) = self.join(&s, &t.id, from, items.iter().zip(&v).map(|((k, _), v)| (k.clone(), v.clone())).collect()) else { return vec![(s, fx, Out::Failed)] };
                            if it.is_empty() { Out::Done } else {
                                match self.set_headers(&mut s, &mut fx, *response, &it) {
                                    Some(true) => if typed.terminal { let r = self.reply500(&mut fx); Out::Term(Some(r)) } else { Out::Done },
                                    Some(false) => Out::Failed,
                                    None => Out::Requeue(t),
                                }
                            }
                        }
                    };
                    vec![(s, fx, o)]
                }
                Op::Store { path, value, export } => {
                    let mut out = vec![];
                    if !t.body_done && matches!(self.pred(&s, &t, &typed.pred), Pv::Ok(false)) { return vec![(s, fx, Out::Done)] }
                    for (mut s, gate) in self.body_gate(&s, &t, &typed) {
                        let mut fx = fx.clone();
                        let mut t = t.clone();
                        match gate {
                            None => {
                                if (s.req_now || s.resp_now) && matches!(self.pred(&s, &t, &typed.pred), Pv::Err) { out.push((s.clone(), fx.clone(), Out::Failed)); }
                                t.begun = !body_ptrs(&typed).0.is_empty() || s.resp_phase; out.push((s, fx, Out::Requeue(t))); continue
                            }
                            Some(false) => { out.push((s, fx, Out::Failed)); continue }
                            Some(true) => t.body_done = true,
                        }
                        match self.pred(&s, &t, &typed.pred) {
                            Pv::Pend => { let o = if self.lacks(&s, &[], &[&typed.pred]) { Out::Failed } else { Out::Requeue(t) }; out.push((s, fx, o)); continue }
                            Pv::Ok(false) => { out.push((s, fx, Out::Done)); continue }
                            Pv::Err => { out.push((s, fx, Out::Failed)); continue }
                            Pv::Ok(true) => {}
                        }
                        let o = match self.one(&s, &t, value) {
                            Ev::Pend => if self.lacks(&s, &[value], &[]) { Out::Failed } else { Out::Requeue(t) },
                            Ev::Err => Out::Failed,
                            Ev::Ok(v) => {
                                if *export && self.refused("set_property", &mut fx) { Out::Failed } else {
                                    if *export { fx.props.push((format!("kuadrant.{path}"), str_value(&v))); }
                                    s.stored.insert(path.clone(), v);
                                    if typed.terminal { let r = self.reply500(&mut fx); Out::Term(Some(r)) } else { Out::Done }
                                }
                            }
                        };
                        out.push((s, fx, o));
                    }
                    out
                }
                Op::Fail => {
                    let o = match self.pred(&s, &t, &typed.pred) {
                        Pv::Pend => if self.lacks(&s, &[], &[&typed.pred]) { Out::Failed } else { Out::Requeue(t) },
                        Pv::Ok(false) => Out::Done,
                        Pv::Err => Out::Failed,
                        Pv::Ok(true) => if typed.terminal { fx.m("errors"); let r = self.reply500(&mut fx); Out::Term(Some(r)) } else { Out::Done },
                    };
                    vec![(s, fx, o)]
                }
            },
        }
    }

    /// Some(true) done, Some(false) failed, None not possible yet
    fn set_headers(&self, s: &mut S, fx: &mut Eff, response: bool, items: &Hdrs) -> Option<bool> {
        let set = |h: &mut Hdrs| for (k, v) in items { let k = k.to_ascii_lowercase(); h.retain(|(a, _)| *a != k); h.push((k, v.clone())); };
        if response {
            if s.rhdrs.is_none() || !s.resp_open { return None }
            if self.refused("set_map_response", fx) { return Some(false) }
            set(s.rhdrs.as_mut().unwrap());
        } else {
            if !s.req_open || self.refused("set_map_request", fx) { return Some(false) }
            set(&mut s.hdrs);
        }
        Some(true)
    }

    fn dispatch(&self, act: &str, sv: &Svc, method: &str, pay: Pay, guard: bool, t: Task, rec: &Rec, fx: &mut Eff) -> Out {
        let service = match sv.kind { SvcKind::Dynamic => sv.grpc.clone(), SvcKind::Auth => AUTH.into(), SvcKind::RateLimit => RLS.into(), _ => KRLS.into() };
        let beh = self.p.svc.get(act).cloned().unwrap_or(default_beh());
        let failed = self.refused("dispatch_grpc_call", fx) || beh.out == crate::plan::Out::DispatchFail;
        fx.disp.push(XDisp { act: act.into(), cluster: sv.endpoint.clone(), service, method: method.into(), timeout_ms: sv.timeout_ms, pay, failed });
        if failed { return Out::Failed }
        // the call the execution made in this place (export calls do not count)
        let n = fx.disp.len() - 1;
        let real: Vec<usize> = rec.disp.iter().copied().filter(|&c| self.w.calls[c].kind != CallKind::Export).collect();
        let idx = real.get(n).copied().unwrap_or(usize::MAX - n);
        Out::Deferred(idx, Fl { task: t, guard, noop: false, export: false })
    }

    // ---- legacy actions: a fixed protocol per service type
    fn legacy(&self, s: &S, l: &Legacy, svc: &Svc, t: &Task, rec: &Rec, fx: &mut Eff) -> Out {
        let report = svc.kind == SvcKind::Report;
        // predicates: own, and at least one block of conditional data
        let mut ands: Vec<Pred> = l.preds.clone();
        let rl = svc.kind != SvcKind::Auth;
        let blocks = &l.cond;
        let hits_block = l.hits.is_some() || l.domain.is_some();
        if rl && !blocks.is_empty() && !hits_block && blocks.iter().all(|b| !b.preds.is_empty()) {
            let block = |b: &CondData| b.preds.iter().cloned().reduce(|a, b| Pred::And(Box::new(a), Box::new(b))).unwrap();
            ands.push(blocks.iter().map(block).reduce(|a, b| Pred::Or(Box::new(a), Box::new(b))).unwrap());
        }
        let pr = ands.into_iter().reduce(|a, b| Pred::And(Box::new(a), Box::new(b))).unwrap_or(Pred::True);
        match self.pred(s, t, &pr) {
            Pv::Pend => return if self.lacks(s, &[], &[&pr]) { Out::Failed } else { Out::Requeue(t.clone()) },
            Pv::Ok(false) => return Out::Done,
            Pv::Err => return Out::Failed,
            Pv::Ok(true) => {}
        }
        let rd: Vec<(String, String, &Expr)> = { let mut v: Vec<(String, String, &Expr)> = self.cfg.request_data.iter().map(|(k, e)| { let (d, f) = domain_and_field(k); (d, f, e) }).collect(); v.sort_by(|a, b| (&a.0, &a.1).cmp(&(&b.0, &b.1))); v };
        let has_resp = |e: &Expr| { let mut r = false; e.walk(&mut |x| if matches!(x, Expr::RespBody(_)) { r = true }); r };
        let guard = !report;
        if svc.kind == SvcKind::Auth {
            let es: Vec<&(String, String, &Expr)> = rd.iter().filter(|(_, _, e)| !has_resp(e)).collect();
            for a in ["request.time", "request.method", "request.path", "request.host", "request.scheme", "request.protocol", "source.address", "source.port", "destination.address", "destination.port"] {
                if self.fault(&format!("prop:{}", attr_source(a))) { return Out::Failed }
            }
            let vals = match self.exprs(s, t, &es.iter().map(|(_, _, e)| *e).collect::<Vec<_>>()) { Err(()) => return Out::Failed, Ok(None) => return if self.lacks(s, &es.iter().map(|(_, _, e)| *e).collect::<Vec<_>>(), &[]) { Out::Failed } else { Out::Requeue(t.clone()) }, Ok(Some(v)) => v };
            let mut meta: BTreeMap<String, prost_types::Struct> = BTreeMap::new();
            for ((d, f, _), v) in es.iter().zip(vals) {
                let k = if d.is_empty() || d == "metrics.labels" { if d.is_empty() { "io.kuadrant".to_string() } else { format!("io.kuadrant.{d}") } } else { format!("io.kuadrant.{d}") };
                meta.entry(k).or_default().fields.insert(f.clone(), prost_types::Value { kind: Some(prost_types::value::Kind::StringValue(v)) });
            }
            let av = |p: &str| match attr(self.p, p) { Some(AttrVal::S(v)) => v, _ => String::new() };
            let ai = |p: &str| match attr(self.p, p) { Some(AttrVal::I(v)) => v, _ => 0 };
            let peer = |a: &str, p: &str| Some(Peer { address: Some(Addr { sock: Some(Sock { address: av(a), port: ai(p) as u32 }) }) });
            let ns = ai("request.time");
            let mut headers = BTreeMap::new();
            for (k, _) in &s.hdrs { headers.insert(k.clone(), hdr_join(&s.hdrs, k).unwrap_or_default()); }
            let req = AuthReq { attributes: Some(ACtx {
                source: peer("source.address", "source.port"), destination: peer("destination.address", "destination.port"),
                request: Some(AReq { time: Some(prost_types::Timestamp { seconds: ns / 1_000_000_000, nanos: (ns % 1_000_000_000) as i32 }),
                    http: Some(Http { method: av("request.method"), headers, path: av("request.path"), host: av("request.host"), scheme: av("request.scheme"), protocol: av("request.protocol") }) }),
                ext: [("host".to_string(), l.scope.clone())].into_iter().collect(),
                meta: if meta.is_empty() { None } else { Some(Meta { fields: meta }) },
            }) };
            return self.dispatch(&l.scope[1..], svc, "Check", Pay::Auth(Box::new(req)), guard, t.clone(), rec, fx);
        }
        // rate limiting: data of the blocks whose predicates hold, then request data
        let mut entries = vec![];
        let mut es: Vec<&Expr> = vec![];
        for b in blocks { for (_, e) in &b.data { es.push(e); } }
        for b in blocks { for p in &b.preds { let mut soft = None; p.walk(&mut |e| { if let Expr::Attr(a) = e { if self.fault(&format!("prop:{}", attr_source(a))) { soft = Some(()) } } }); if soft.is_some() { return Out::Failed } } }
        let rd_in: Vec<&(String, String, &Expr)> = rd.iter().filter(|(_, _, e)| report || !has_resp(e)).collect();
        for (_, _, e) in &rd_in { es.push(e); }
        if let Some(h) = &l.hits { es.push(h); }
        if let Some(d) = &l.domain { es.push(d); }
        let bp: Vec<&Pred> = blocks.iter().flat_map(|b| &b.preds).collect();
        let pend_scan = self.scan(s, &|f| { for e in &es { e.walk(&mut |x| f(x)) } for p in &bp { p.walk(&mut |x| f(x)) } }, t);
        match pend_scan {
            Some(true) => return Out::Failed,
            Some(false) => return if self.lacks(s, &es, &bp) { Out::Failed } else { Out::Requeue(t.clone()) },
            None => {}
        }
        for b in blocks {
            let mut hold = true;
            for p in &b.preds { match self.rpred(s, &t.id, p) { Ok(true) => {} Ok(false) => { hold = false; break } Err(()) => return Out::Failed } }
            if !hold { continue }
            for (k, e) in &b.data { match self.resolve(s, &t.id, e) { Ok(v) => entries.push(Kv { key: k.clone(), value: v }), Err(()) => return Out::Failed } }
        }
        let mut extra = vec![];
        for (d, f, e) in &rd_in {
            let k = if d.is_empty() || d == "metrics.labels" { f.clone() } else { format!("{d}.{f}") };
            match self.resolve(s, &t.id, e) { Ok(v) => extra.push(Kv { key: k, value: v }), Err(()) => return Out::Failed }
        }
        let hits = match &l.hits { None => 1, Some(h) => match self.resolve(s, &t.id, h).ok().and_then(|v| v.parse::<u32>().ok()) { Some(n) => n, None => return Out::Failed } };
        let domain = match &l.domain { None => l.scope.clone(), Some(d) => match self.resolve(s, &t.id, d) { Ok(v) => v, Err(()) => return Out::Failed } };
        let mut descriptors = vec![];
        if !blocks.is_empty() { descriptors.push(RlDescriptor { entries }); }
        if !extra.is_empty() { descriptors.push(RlDescriptor { entries: extra }); }
        let method = match svc.kind { SvcKind::RateLimit => "ShouldRateLimit", SvcKind::Check => "CheckRateLimit", _ => "Report" };
        self.dispatch(&l.scope[1..], svc, method, Pay::Rl(RlReq { domain, descriptors, hits }), guard, t.clone(), rec, fx)
    }

    fn lit(&self, t: &Task, i: usize, l: Lit) -> Task { Task { id: format!("{}.{i}", t.id), deps: Rc::new(vec![]), fm: t.fm.map(|(d, _)| (d, true)), k: K::Lit(l), body_done: false, begun: false } }

    /// A call's answer.
    fn answer(&self, s: &mut S, f: &Fl, call: &Call) -> Out {
        let t = &f.task;
        let (status, bytes) = call.settled.clone().unwrap_or((14, vec![]));
        if f.noop || f.export { return Out::Done }
        if status != 0 { return Out::Failed }
        match &t.k {
            K::T(typed) => {
                let Op::Grpc { var, on_reply, .. } = &typed.op else { return Out::Done };
                if on_reply.is_empty() { return Out::Done }
                if bytes.is_empty() { return Out::Failed }
                let Some(r) = DynRep::read(&call.cluster, &call.method, &bytes) else { return Out::Failed };
                s.bind.insert(t.id.clone(), (var.clone(), r.tag, r.code, r.hk.into_iter().map(|h| (h.key, h.value)).collect()));
                Out::Children(self.children(&t.id, on_reply, t.fm.map(|(d, _)| (d, true))))
            }
            K::L(_, svc) => {
                if bytes.is_empty() { return Out::Failed }
                match svc.kind {
                    SvcKind::Auth => {
                        let Ok(r) = AuthRep::decode(&bytes[..]) else { return Out::Failed };
                        let pairs = |h: &[HOpt]| h.iter().filter_map(|o| o.header.clone()).map(|h| (h.key, h.value)).collect::<Hdrs>();
                        let mut out = vec![];
                        if let Some(d) = r.denied {
                            let code = d.status.map(|c| c.code).unwrap_or(0);
                            out.push(self.lit(t, 0, Lit::Deny { status: if code == 0 { 403 } else { code as u32 }, headers: pairs(&d.headers), body: d.body }));
                        } else if let Some(ok) = r.ok {
                            if !ok.remove.is_empty() || !ok.resp_add.is_empty() { out.push(self.lit(t, 0, Lit::Fail)); } else {
                                if let Some(m) = r.meta {
                                    let m = m.fields.into_iter().filter_map(|(k, v)| match v.kind { Some(prost_types::value::Kind::StringValue(s)) => Some((k, s)), _ => None }).collect();
                                    out.push(self.lit(t, 0, Lit::StoreAuth(m)));
                                }
                                out.push(self.lit(t, 1, Lit::Hdrs { response: false, items: pairs(&ok.headers) }));
                            }
                        } else { out.push(self.lit(t, 0, Lit::Fail)); }
                        Out::Children(out)
                    }
                    SvcKind::Report => { if RlRep::decode(&bytes[..]).is_err() { return Out::Failed } Out::Done }
                    _ => {
                        let Ok(r) = RlRep::decode(&bytes[..]) else { return Out::Failed };
                        let h: Hdrs = r.headers.iter().map(|k| (k.key.clone(), k.value.clone())).collect();
                        Out::Children(vec![match r.code {
                            2 => self.lit(t, 0, Lit::Deny { status: 429, headers: h, body: "Too Many Requests\n".into() }),
                            1 => self.lit(t, 1, Lit::Hdrs { response: true, items: h }),
                            _ => self.lit(t, 2, Lit::Fail),
                        }])
                    }
                }
            }
            _ => Out::Done,
        }
    }

    /// Failure mode: what an outcome becomes for the action it belongs to.
    fn wrap(&self, s: &S, t_fm: Option<(bool, bool)>, o: Out, fx: &mut Eff) -> Out {
        match o {
            Out::Failed => match t_fm {
                None => Out::Failed,
                Some((_, false)) if s.resp_phase && !s.resp_open => Out::Failed,
                Some(_) if s.resp_phase && !s.resp_open => { fx.m("errors"); Out::Done }
                Some((deny, _)) => { fx.m("errors"); if deny { let r = self.reply500(fx); Out::Term(Some(r)) } else { Out::Done } }
            },
            o => o,
        }
    }

    fn terminate(&self, s: &mut S, r: Option<LocalReply>, fx: &mut Eff) {
        if let Some(r) = r { fx.replies.push(r); }
        s.queue.clear();
        s.terminated = true;
        for f in s.flight.values_mut() { f.noop = true; }
    }

    fn land(&self, mut s: S, t: &Task, o: Out, mut fx: Eff, at_reply: bool) -> Vec<(S, Eff, bool)> {
        let o = self.wrap(&s, t.fm, o, &mut fx);
        match o {
            Out::Done | Out::Failed => { s.done.insert(t.id.clone()); vec![(s, fx, false)] }
            Out::Requeue(n) => { s.queue.push(n); vec![(s, fx, false)] }
            Out::Deferred(i, mut f) => { if let Some((d, _)) = f.task.fm { f.task.fm = Some((d, true)); } s.flight.insert(i, f); vec![(s, fx, false)] }
            Out::Children(c) => {
                s.done.insert(t.id.clone());
                if at_reply { for x in c.into_iter().rev() { s.queue.insert(0, x); } } else { s.queue.extend(c); }
                vec![(s, fx, false)]
            }
            Out::Term(r) => { self.terminate(&mut s, r, &mut fx); vec![(s, fx, true)] }
        }
    }

    /// While a pass runs, tasks not yet reached still hold their reservations; keep them visible.
    fn pass(&self, s: S, fx: Eff, rec: &Rec) -> Vec<(S, Eff)> {
        // the queue is drained one by one so `pending_path` sees the remainder
        let mut s = s;
        // what is looked for in a body is taken from it ahead of what uses it
        let (mut tasks, rest): (Vec<Task>, Vec<Task>) = std::mem::take(&mut s.queue).into_iter().partition(|t| matches!(t.k, K::ReqVals(_) | K::Usage(_)));
        tasks.extend(rest);
        let mut cur: Vec<(S, Eff, bool, Vec<Task>)> = vec![(s, fx, false, vec![])];
        for i in 0..tasks.len() {
            let t = &tasks[i];
            let mut next = vec![];
            for (mut s, fx, over, mut kept) in cur {
                if over { next.push((s, fx, true, kept)); continue }
                if t.deps.iter().any(|d| !s.done.contains(d)) { kept.push(t.clone()); next.push((s, fx, false, kept)); continue }
                // visible to pending_path: what was kept and what is still to come
                s.queue = kept.iter().cloned().chain(tasks[i + 1..].iter().cloned()).collect();
                let base = s.queue.len();
                for (mut s2, fx2, o) in self.apply(&s, t.clone(), rec, &fx) {
                    s2.queue.clear();
                    let _ = base;
                    for (s3, fx3, over) in self.land(s2, t, o, fx2, false) {
                        let mut k = kept.clone();
                        k.extend(s3.queue.iter().cloned());
                        let mut s3 = s3; s3.queue.clear();
                        next.push((s3, fx3, over, k));
                    }
                }
            }
            cur = next;
        }
        cur.into_iter().map(|(mut s, fx, over, kept)| { if !over { s.queue = kept; } (s, fx) }).collect()
    }

    pub fn start(&self) -> S {
        S { built: false, nth: BTreeMap::new(), queue: vec![], flight: BTreeMap::new(), done: BTreeSet::new(), terminated: false, stored: BTreeMap::new(), auth: None, req_vals: BTreeMap::new(), resp_vals: BTreeMap::new(), req_total: 0, resp_total: 0, req_fwd: 0, resp_fwd: 0,
            req_eos: false, resp_eos: false, resp_phase: false, req_open: true, resp_open: false, hdrs: full_headers(self.p), rhdrs: None, bind: BTreeMap::new(), req_now: false, resp_now: false }
    }

    fn build(&self, s: &mut S, set: Option<&Set>) {
        if let Some(set) = set {
            let deps = deps_of(&set.acts);
            for (i, a) in set.acts.iter().enumerate() {
                let id = i.to_string();
                let d = Rc::new(deps[i].clone());
                match a {
                    Act::T(t) => {
                        let mut ptrs = BTreeSet::new();
                        // a store of the set itself sees to it itself
                        if !matches!(t.op, Op::Store { .. }) { req_ptrs_deep(t, &mut ptrs); }
                        if !ptrs.is_empty() { s.queue.push(self.mk("request_body", K::ReqVals(ptrs.into_iter().collect()), None, Rc::new(vec![]))); }
                        if let Op::Grpc { svc, .. } = &t.op {
                            let mut ptrs = BTreeSet::new();
                            resp_ptrs_deep(t, &mut ptrs);
                            for (_, e) in &self.cfg.request_data { e.walk(&mut |x| if let Expr::RespBody(p) = x { ptrs.insert(p.clone()); }); }
                            if !ptrs.is_empty() { s.queue.push(self.mk("token_usage", K::Usage(ptrs.into_iter().collect()), None, Rc::new(vec![]))); }
                            s.queue.push(self.mk(&id, K::T(Rc::new(t.clone())), Some((self.grpc_deny(svc), false)), d));
                        } else { s.queue.push(self.mk(&id, K::T(Rc::new(t.clone())), None, Rc::new(vec![]))); }
                    }
                    Act::L(l) => {
                        let Some(svc) = self.svc(&l.svc) else { continue };
                        let (mut ptrs, mut rptrs) = (BTreeSet::new(), BTreeSet::new());
                        let mut f = |e: &Expr| match e { Expr::RespBody(p) => { ptrs.insert(p.clone()); } Expr::ReqBody(p) => { rptrs.insert(p.clone()); } _ => {} };
                        for p in l.preds.iter().chain(l.cond.iter().flat_map(|c| c.preds.iter())) { p.walk(&mut |e| f(e)); }
                        for (_, e) in l.cond.iter().flat_map(|c| c.data.iter()) { e.walk(&mut |e| f(e)); }
                        if let Some(h) = &l.hits { h.walk(&mut |e| f(e)); } if let Some(h) = &l.domain { h.walk(&mut |e| f(e)); }
                        for (_, e) in &self.cfg.request_data { e.walk(&mut |e| f(e)); }
                        if !rptrs.is_empty() { s.queue.push(self.mk("request_body", K::ReqVals(rptrs.into_iter().collect()), None, Rc::new(vec![]))); }
                        if !ptrs.is_empty() { s.queue.push(self.mk("token_usage", K::Usage(ptrs.into_iter().collect()), None, Rc::new(vec![]))); }
                        s.queue.push(self.mk(&id, K::L(Rc::new(l.clone()), Rc::new(svc.clone())), Some((svc.deny, false)), d));
                    }
                }
            }
        }
        if let Some(h) = &self.cfg.ident { s.queue.push(self.mk("kuadrant.devMode", K::Track(h.clone()), None, Rc::new(vec![]))); }
        s.built = true;
    }
    fn mk(&self, id: &str, k: K, fm: Option<(bool, bool)>, deps: Rc<Vec<String>>) -> Task { Task { id: id.into(), deps, fm, k, body_done: false, begun: false } }

    /// All behaviours the specification allows for this callback.
    pub fn step(&self, s: &S, rec: &Rec) -> Vec<(S, Eff)> {
        let mut out = self.step_in(s, rec);
        for (s, _) in &mut out {
            if !rec.held_req { s.req_fwd = s.req_total; }
            if !rec.held_resp { s.resp_fwd = s.resp_total; }
        }
        out
    }

    fn step_in(&self, s: &S, rec: &Rec) -> Vec<(S, Eff)> {
        let mut v = self.step_at(s, rec);
        for (s, fx) in &mut v { s.nth = fx.nth.clone(); }
        v
    }
    fn step_at(&self, s: &S, rec: &Rec) -> Vec<(S, Eff)> {
        let mut s = s.clone();
        let mut fx = Eff { nth: std::mem::take(&mut s.nth), ..Eff::default() };
        s.req_now = matches!(rec.cb, Cb::ReqBody { .. } | Cb::ReqTrl) || (rec.was_held_req && matches!(rec.cb, Cb::Reply { .. }));
        s.resp_now = matches!(rec.cb, Cb::RespBody { .. } | Cb::RespTrl) || (rec.was_held_resp && matches!(rec.cb, Cb::Reply { .. }));
        s.req_open = rec.req_hdrs.is_some();
        s.resp_open = rec.resp_hdrs.is_some();
        match &rec.cb {
            Cb::ReqHdr { eos } => {
                s.req_eos = *eos;
                match select(self.cfg, self.p) {
                    Sel::Err => { fx.m("errors"); fx.replies.push(LocalReply { status: 500, headers: vec![], body: b"Internal Server Error.\n".to_vec() }); s.terminated = true; return vec![(s, fx)] }
                    Sel::Miss | Sel::Empty => { fx.m("misses"); return vec![(s, fx)] }
                    Sel::Set(set) => { self.build(&mut s, Some(set)); }
                    Sel::Fallback => { self.build(&mut s, None); }
                }
                fx.m("hits");
                if s.queue.is_empty() { fx.metrics.clear(); fx.m("misses"); return vec![(s, fx)] }
                self.pass(s, fx, rec)
            }
            Cb::ReqBody { total, eos } => { s.req_total = *total; s.req_eos |= *eos; self.go(s, fx, rec) }
            Cb::ReqTrl => { s.req_eos = true; self.go(s, fx, rec) }
            Cb::RespHdr { eos, local } => {
                if *local { s.resp_eos |= *eos; return vec![(s, fx)] }
                fx.m("allowed");
                s.resp_phase = true;
                s.rhdrs = Some(full_resp_headers(&self.p.upstream));
                s.resp_eos |= *eos;
                self.go(s, fx, rec)
            }
            Cb::RespBody { local: true, eos, .. } => { s.resp_eos |= *eos; vec![(s, fx)] }
            Cb::RespBody { total, eos, .. } => { s.resp_total = *total; s.resp_eos |= *eos; self.go(s, fx, rec) }
            Cb::RespTrl => { s.resp_eos = true; self.go(s, fx, rec) }
            Cb::Reply { call } => {
                let c = &self.w.calls[*call];
                if c.kind == CallKind::Export { return self.go(s, fx, rec) }
                let Some(f) = s.flight.remove(call) else { return vec![(s, fx)] };
                let o = self.answer(&mut s, &f, c);
                let mut t = f.task.clone();
                if f.noop { t.fm = None; }
                let mut out = vec![];
                for (s2, fx2, over) in self.land(s, &t, o, fx, true) {
                    if over { out.push((s2, fx2)); } else { out.extend(self.go(s2, fx2, rec)); }
                }
                out
            }
        }
    }
    fn go(&self, s: S, fx: Eff, rec: &Rec) -> Vec<(S, Eff)> { if s.terminated || !s.built { return vec![(s, fx)] } self.pass(s, fx, rec) }

    fn guards_out(s: &S) -> usize { s.flight.values().filter(|f| f.guard).count() }

    /// (request held, response held) afterwards; None where the specification does not say
    pub fn holds(&self, s: &S, rec: &Rec) -> (Option<bool>, Option<bool>) {
        let g = Self::guards_out(s) > 0;
        let any = !s.flight.is_empty();
        let req = match rec.cb {
            Cb::ReqHdr { .. } | Cb::ReqBody { .. } | Cb::ReqTrl => g,
            Cb::Reply { .. } => rec.was_held_req && g,
            _ => rec.was_held_req,
        };
        let resp_rule = g || (s.resp_eos && any);
        let resp = match rec.cb {
            Cb::RespHdr { .. } | Cb::RespBody { .. } | Cb::RespTrl => Some(resp_rule),
            Cb::Reply { .. } => Some(rec.was_held_resp && resp_rule),
            _ => Some(rec.was_held_resp),
        };
        // a reply of the module's own may go out at once; it must not wait for anything but guards, its end for anything but calls
        let resp = if s.terminated && resp == Some(true) { None } else { resp };
        ((!s.terminated).then_some(req), if s.resp_eos && self.cfg.tracing && resp == Some(false) { None } else { resp })
    }
    pub fn headers(&self, s: &S) -> (Hdrs, Option<Hdrs>) { (s.hdrs.clone(), s.rhdrs.clone()) }
    pub fn in_flight(&self, s: &S) -> usize { s.flight.len() }
    pub fn guard_in_flight(&self, s: &S) -> bool { Self::guards_out(s) > 0 }
    pub fn over(&self, s: &S) -> bool { s.built && (s.terminated || (s.queue.is_empty() && s.flight.is_empty())) }
    pub fn is_terminated(&self, s: &S) -> bool { s.terminated }
    pub fn describe(&self, s: &S) -> String {
        format!("queue {:?} in-flight {:?} done {:?}", s.queue.iter().map(|t| t.id.clone()).collect::<Vec<_>>(), s.flight.iter().map(|(i, f)| (i, f.task.id.clone())).collect::<Vec<_>>(), s.done)
    }
}
