//! A plan is one fully explicit execution: configurations, client streams, upstream and service behaviour,
//! faults and their times. It is what a seed expands to, what the shrinker edits and what a replay file holds.
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Expr {
    Lit(String),
    /// request header, by key
    ReqHdr(String),
    /// a string host attribute (`request.path`, `request.method`, `source.address` ...)
    Attr(String),
    /// `requestBodyJSON(ptr)` / `responseBodyJSON(ptr)`
    ReqBody(String),
    RespBody(String),
    /// field `tag` or `code` of the enclosing gRPC action's reply
    Tag(String),
    Code(String),
    /// another field of it: `wire::rep_text`
    Rep(String, usize),
    /// a stored value, by path
    Stored(String),
    Cat(Vec<Expr>),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Pred {
    True,
    False,
    Eq(Expr, String),
    Ne(Expr, String),
    /// reply code == n
    CodeIs(String, i64),
    CodeGe(String, i64),
    And(Box<Pred>, Box<Pred>),
    Or(Box<Pred>, Box<Pred>),
    /// an expression whose evaluation fails (unbound variable)
    Broken,
}

/// Valid expressions whose value is no denial: of another type, or not to be evaluated at all.
pub const WRONG_DENY: [&str; 6] = ["'denied'", "[403u]", "{'status': 403u, 'body': 'no'}", "403u", "DenyResponse{status: 403u, body: request.headers['x-absent']}", "DenyResponse{status: 403u, headers: [['x-deny-0', request.headers['x-absent']]]}"];

/// A further field of the message of a typed call. Numbers are written as they stand, also where the field cannot hold them.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Rich { N(i64), I(i64), U(u64), Ul(u64), F(String), D(String), Fl(String), E(i64), Sub(i64), Rs, Ri(Vec<i64>), Mp, By, Ts(i64, i32), Subs, Opt(bool), Si(i64), Im(i64),
    /// what the reply bound to a variable holds, as it is
    Of(String, u8) }
impl Rich {
    /// field of the message, field of the reply
    pub const OF: [(&'static str, &'static str); 12] = [("sub", "sub"), ("rs", "rs"), ("mp", "mp"), ("ts", "ts"), ("subs", "subs"), ("by", "by"), ("d", "d"), ("u", "u"), ("e", "e"), ("opt", "opt"), ("si", "sl"), ("n", "z")];
    /// the field it sets
    pub fn field(&self) -> &'static str {
        match self {
            Rich::N(_) => "n", Rich::I(_) => "i", Rich::U(_) => "u", Rich::Ul(_) => "ul", Rich::F(_) => "f", Rich::D(_) => "d", Rich::Fl(_) => "fl", Rich::E(_) => "e", Rich::Sub(_) => "sub", Rich::Rs => "rs", Rich::Ri(_) => "ri",
            Rich::Mp => "mp", Rich::By => "by", Rich::Ts(..) => "ts", Rich::Subs => "subs", Rich::Opt(_) => "opt", Rich::Si(_) => "si", Rich::Im(_) => "im", Rich::Of(_, k) => Rich::OF[*k as usize].0,
        }
    }
    /// Field and expression; `b` is the expression of field `b`.
    fn cel(&self, b: &str) -> String {
        match self {
            Rich::N(n) => format!("n: {n}"), Rich::I(n) => format!("i: {n}"), Rich::U(n) => format!("u: {n}u"), Rich::Ul(n) => format!("ul: {n}u"), Rich::Si(n) => format!("si: {n}"),
            Rich::F(s) => format!("f: ({b}) == {}", q(s)), Rich::D(s) => format!("d: {s}"), Rich::Fl(s) => format!("fl: {s}"), Rich::E(n) => format!("e: {n}"),
            Rich::Sub(n) => format!("sub: sim.v1.Sub{{ k: {b}, n: {n}, sub: sim.v1.Sub{{ k: 'in' }} }}"), Rich::Rs => format!("rs: [{b}, 'c', {b}]"),
            Rich::Ri(v) => format!("ri: [{}]", v.iter().map(|n| n.to_string()).collect::<Vec<_>>().join(", ")),
            Rich::Mp => format!("mp: {{'k': {b}, 'z': 'c'}}"), Rich::By => format!("by: bytes({b})"),
            Rich::Ts(s, ms) => format!("ts: timestamp('2024-01-02T03:04:{s:02}.{ms:03}Z')"), Rich::Subs => format!("subs: [sim.v1.Sub{{ k: {b} }}, sim.v1.Sub{{ n: 4 }}]"),
            Rich::Of(v, k) => { let (to, from) = Rich::OF[*k as usize]; format!("{to}: {v}.{from}") }
            Rich::Opt(empty) => format!("opt: {}", if *empty { "''" } else { b }), Rich::Im(n) => format!("im: {{{n}: sim.v1.Sub{{ k: {b} }}}}"),
        }
    }
    /// Into the message; false where the field cannot hold the value.
    pub fn put(&self, b: &str, look: &dyn Fn(&str) -> Option<(String, i64)>, m: &mut crate::wire::DynReq) -> bool {
        use crate::wire::Sub;
        let sub = |k: &str, n: i64| Sub { k: k.into(), n, sub: None };
        match self {
            Rich::N(n) => m.n = *n,
            Rich::I(n) => match i32::try_from(*n) { Ok(n) => m.i = n, Err(_) => return false },
            Rich::Si(n) => match i32::try_from(*n) { Ok(n) => m.si = n, Err(_) => return false },
            Rich::U(n) => match u32::try_from(*n) { Ok(n) => m.u = n, Err(_) => return false },
            Rich::Ul(n) => m.ul = *n,
            Rich::F(s) => m.f = b == s,
            Rich::D(s) => m.d = s.parse().unwrap(),
            Rich::Fl(s) => { let v: f64 = s.parse().unwrap(); if v.abs() > f32::MAX as f64 { return false } m.fl = v as f32 }
            Rich::E(n) => { if !(0..=2).contains(n) { return false } m.e = *n as i32 }
            Rich::Sub(n) => m.sub = Some(Box::new(Sub { sub: Some(Box::new(sub("in", 0))), ..sub(b, *n) })),
            Rich::Rs => m.rs = vec![b.into(), "c".into(), b.into()],
            Rich::Ri(v) => m.ri = v.clone(),
            Rich::Mp => m.mp = [("k".to_string(), b.to_string()), ("z".to_string(), "c".to_string())].into_iter().collect(),
            Rich::By => m.by = b.as_bytes().to_vec(),
            Rich::Ts(s, ms) => m.ts = Some(prost_types::Timestamp { seconds: 1_704_164_640 + s, nanos: ms * 1_000_000 }),
            Rich::Of(v, k) => {
                let Some((tag, code)) = look(v) else { return false };
                let r = crate::wire::dyn_rep(&tag, code);
                match k {
                    0 => m.sub = r.sub.map(Box::new), 1 => m.rs = r.rs, 2 => m.mp = r.mp, 3 => m.ts = r.ts, 4 => m.subs = r.subs, 5 => m.by = r.by, 6 => m.d = r.d, 7 => m.u = r.u, 8 => m.e = r.e,
                    9 => { if r.opt.is_none() { return false } m.opt = r.opt }
                    10 => m.si = r.sl as i32, _ => m.n = r.z,
                }
            }
            Rich::Subs => m.subs = vec![sub(b, 0), sub("", 4)],
            Rich::Opt(empty) => m.opt = Some(if *empty { String::new() } else { b.into() }),
            Rich::Im(n) => match i32::try_from(*n) { Ok(n) => { m.im.insert(n, sub(b, 0)); } Err(_) => return false },
        }
        true
    }
}

/// Headers as the reply bound to `var` lists them: as pairs or each under a `header` of its own; before the others or after.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct From { pub var: String, pub nested: bool, pub first: bool }

/// The expression of a list of headers.
fn list(items: &[(String, Expr)], from: &Option<From>) -> String {
    let own = format!("[{}]", items.iter().map(|(k, e)| format!("[{}, {}]", q(k), e.cel())).collect::<Vec<_>>().join(", "));
    match from {
        None => own,
        Some(f) => { let theirs = format!("{}.{}", f.var, if f.nested { "ho" } else { "hk" }); if items.is_empty() { theirs } else if f.first { format!("{theirs} + {own}") } else { format!("{own} + {theirs}") } }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Grpc { svc: String, var: String, a: Expr, b: Expr, on_reply: Vec<Typed>, #[serde(default, skip_serializing_if = "Vec::is_empty")] rich: Vec<Rich> },
    /// `wrong` > 0: an expression that yields no denial (see `WRONG_DENY`)
    Deny { status: u32, headers: Vec<(String, Expr)>, body: Expr, #[serde(default)] wrong: u8, #[serde(default, skip_serializing_if = "Option::is_none")] from: Option<From> },
    Headers { response: bool, items: Vec<(String, Expr)>, #[serde(default, skip_serializing_if = "Option::is_none")] from: Option<From> },
    Store { path: String, value: Expr, export: bool },
    Fail,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Typed {
    pub pred: Pred,
    pub terminal: bool,
    pub guard: bool,
    #[serde(default)]
    pub seq: bool,
    pub op: Op,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct CondData {
    pub preds: Vec<Pred>,
    /// key -> static or expression
    pub data: Vec<(String, Expr)>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Legacy {
    pub svc: String,
    pub scope: String,
    pub preds: Vec<Pred>,
    pub cond: Vec<CondData>,
    /// `ratelimit.hits_addend` taken from the response body
    pub hits: Option<Expr>,
    /// `ratelimit.domain`, when it is not the scope
    #[serde(default)]
    pub domain: Option<Expr>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Act { T(Typed), L(Legacy) }

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum SvcKind { Dynamic, Auth, RateLimit, Check, Report }

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Svc {
    pub name: String,
    pub kind: SvcKind,
    pub endpoint: String,
    /// fully qualified gRPC service name for dynamic services
    pub grpc: String,
    pub deny: bool,
    pub timeout_ms: u64,
    /// calls the other method
    #[serde(default)]
    pub again: bool,
}
impl Svc { pub fn method(&self) -> &'static str { if self.again { "Again" } else { "Call" } } }

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Set {
    pub name: String,
    pub hosts: Vec<String>,
    pub preds: Vec<Pred>,
    pub acts: Vec<Act>,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Bad { No, NotJson, BadPredicate, UnknownService, Absent, HostError, MissingField }

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Cfg {
    pub at: u64,
    /// reaches the VM as a root context of its own, as Envoy does it, rather than the one there is
    #[serde(default)]
    pub fresh: bool,
    pub bad: Bad,
    pub svcs: Vec<Svc>,
    pub sets: Vec<Set>,
    pub request_data: Vec<(String, Expr)>,
    pub ident: Option<String>,
    pub tracing: bool,
    pub level: Option<String>,
    pub descriptor_service: Option<String>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Out {
    /// protocol-correct reply: code, tag, headers
    Ok { code: i64, tag: String, hdrs: Vec<(String, String)> },
    /// gRPC failure with this status
    Status(u32),
    /// bytes that do not decode
    Garbage,
    /// empty message
    Empty,
    /// never answers: Envoy times the call out
    Lost,
    /// the dispatch hostcall itself fails
    DispatchFail,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Beh { pub latency: u64, pub out: Out }

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Upstream {
    /// answer after the request headers instead of after the end of the request
    pub early: bool,
    pub delay: u64,
    pub headers: Vec<(String, String)>,
    pub body: String,
    /// byte offsets at which the body is split into data frames
    pub splits: Vec<usize>,
    pub gap: u64,
    /// end of stream arrives on its own, with no data
    pub bare_eos: bool,
    pub trailers: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Stream {
    pub id: u32,
    pub at: u64,
    pub host: String,
    pub method: String,
    pub path: String,
    pub headers: Vec<(String, String)>,
    /// None: headers-only request (end of stream on the headers)
    pub body: Option<String>,
    pub splits: Vec<usize>,
    pub gap: u64,
    pub bare_eos: bool,
    #[serde(default)]
    pub trailers: bool,
    /// the client has an IPv6 address
    #[serde(default)]
    pub v6: bool,
    pub upstream: Upstream,
    /// "config version/action id" is not needed: action ids are unique per stream's action set
    pub svc: BTreeMap<String, Beh>,
    pub disconnect: Option<u64>,
    /// sticky host faults: hostcall site name, or "prop:<path>"
    pub faults: Vec<String>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum DescOut { Ok, Partial(u32), Corrupt(u32), Lacking(u32), Status(u32), Garbage, Empty, Lost, DispatchFail, Foreign }

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct DescBeh { pub latency: u64, pub out: DescOut }

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Plan {
    pub seed: u64,
    pub profile: String,
    /// exact: compared with the reference model; otherwise only model-free invariants
    pub exact: bool,
    pub log_level: u32,
    pub cfgs: Vec<Cfg>,
    pub streams: Vec<Stream>,
    pub desc: Vec<DescBeh>,
    /// transient host faults: fail the n-th hostcall of a kind (chaos only)
    pub transient: Vec<(String, u64)>,
    /// set_tick_period fails this many times first
    #[serde(default)]
    pub tick_fail: u32,
    /// context deletions etc. happen after this long without progress
    pub horizon: u64,
}

// ---------------------------------------------------------------- rendering to configuration JSON / CEL

pub fn q(s: &str) -> String {
    format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n"))
}

impl Expr {
    /// CEL text; always of CEL type string
    pub fn cel(&self) -> String {
        match self {
            Expr::Lit(s) => q(s),
            Expr::ReqHdr(k) => format!("request.headers[{}]", q(k)),
            Expr::Attr(p) => match p.as_str() { "source.port" | "destination.port" | "request.size" | "connection.id" => format!("string({p})"), "connection.mtls" => format!("({p} ? \"true\" : \"false\")"), _ => p.clone() },
            Expr::ReqBody(p) => format!("string(requestBodyJSON({}))", q(p)),
            Expr::RespBody(p) => format!("string(responseBodyJSON({}))", q(p)),
            Expr::Tag(v) => format!("{v}.tag"),
            Expr::Code(v) => format!("string({v}.code)"),
            Expr::Rep(v, k) => crate::wire::rep_text(*k, v, "", 0).0,
            Expr::Stored(p) => p.clone(),
            Expr::Cat(v) => {
                let parts: Vec<String> = v.iter().map(|e| e.cel()).collect();
                if parts.is_empty() { q("") } else { parts.join(" + \"|\" + ") }
            }
        }
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a Expr)) {
        f(self);
        if let Expr::Cat(v) = self { for e in v { e.walk(f) } }
    }
}

impl Pred {
    pub fn cel(&self) -> String {
        match self {
            Pred::True => "true".into(),
            Pred::False => "false".into(),
            Pred::Eq(e, s) => format!("{} == {}", e.cel(), q(s)),
            Pred::Ne(e, s) => format!("{} != {}", e.cel(), q(s)),
            Pred::CodeIs(v, n) => format!("{v}.code == {n}"),
            Pred::CodeGe(v, n) => format!("{v}.code >= {n}"),
            Pred::And(a, b) => format!("({}) && ({})", a.cel(), b.cel()),
            Pred::Or(a, b) => format!("({}) || ({})", a.cel(), b.cel()),
            Pred::Broken => "no_such_variable.field == 1".into(),
        }
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a Expr)) {
        match self {
            Pred::Eq(e, _) | Pred::Ne(e, _) => e.walk(f),
            Pred::And(a, b) | Pred::Or(a, b) => { a.walk(f); b.walk(f) }
            _ => {}
        }
    }
}

use serde_json::{json, Value as J};

impl Typed {
    pub fn json(&self, id: &str, child: bool) -> J {
        let mut o = match &self.op {
            Op::Grpc { svc, var, a, b, on_reply, rich } => json!({
                "type": "grpc", "service": svc, "var": var,
                "messageBuilder": format!("sim.v1.Req{{ act: {}, sid: request.headers[\"x-sid\"], a: {}, b: {}{} }}", q(id), a.cel(), b.cel(), rich.iter().map(|r| format!(", {}", r.cel(&b.cel()))).collect::<String>()),
                "onReply": on_reply.iter().enumerate().map(|(i, t)| t.json(&format!("{id}.{i}"), true)).collect::<Vec<_>>(),
                "label": format!("label-{id}"),
            }),
            Op::Deny { wrong, .. } if *wrong > 0 => json!({ "type": "deny", "denyWith": WRONG_DENY[(*wrong - 1) as usize % WRONG_DENY.len()] }),
            Op::Deny { status, headers, body, from, .. } => json!({
                "type": "deny",
                "denyWith": format!("DenyResponse{{ status: {status}u, headers: {}, body: {} }}", list(headers, from), body.cel()),
            }),
            Op::Headers { response, items, from } => json!({
                "type": "headers", "target": if *response { "response" } else { "request" },
                "headers": list(items, from),
            }),
            Op::Store { path, value, export } => json!({ "type": "store", "path": path, "value": value.cel(), "exportToHost": export }),
            Op::Fail => json!({ "type": "fail", "logMessage": format!("fail {id}") }),
        };
        let m = o.as_object_mut().unwrap();
        m.insert("predicate".into(), json!(self.pred.cel()));
        m.insert("terminal".into(), json!(self.terminal));
        m.insert("isGuard".into(), json!(self.guard));
        m.insert("sources".into(), json!([format!("src-{id}")]));
        if self.seq && !child { m.insert("execution".into(), json!("sequential")); }
        o
    }
}

impl Legacy {
    pub fn json(&self) -> J {
        let mut cond: Vec<J> = self.cond.iter().map(|c| json!({
            "predicates": c.preds.iter().map(|p| p.cel()).collect::<Vec<_>>(),
            "data": c.data.iter().map(|(k, e)| match e {
                Expr::Lit(s) => json!({"static": {"key": k, "value": s}}),
                e => json!({"expression": {"key": k, "value": e.cel()}}),
            }).collect::<Vec<_>>(),
        })).collect();
        if let Some(h) = &self.hits {
            let v = match h { Expr::RespBody(p) => format!("responseBodyJSON({})", q(p)), Expr::Lit(s) => s.clone(), e => e.cel() };
            let item = match h {
                Expr::Lit(s) => json!({"static": {"key": "ratelimit.hits_addend", "value": s}}),
                _ => json!({"expression": {"key": "ratelimit.hits_addend", "value": v}}),
            };
            cond.push(json!({"predicates": [], "data": [item]}));
        }
        if let Some(d) = &self.domain {
            let item = match d {
                Expr::Lit(s) => json!({"static": {"key": "ratelimit.domain", "value": s}}),
                e => json!({"expression": {"key": "ratelimit.domain", "value": e.cel()}}),
            };
            cond.insert(0, json!({"predicates": [], "data": [item]}));
        }
        json!({ "service": self.svc, "scope": self.scope, "predicates": self.preds.iter().map(|p| p.cel()).collect::<Vec<_>>(),
                "conditionalData": cond, "sources": ["legacy"] })
    }
}

impl Cfg {
    /// where traces go, and how long an export may take
    pub fn tracer(&self) -> (String, u64) { let k = self.at % 3; (format!("tracing-{k}"), [50, 20, 1500][k as usize]) }

    pub fn json(&self) -> String {
        if self.bad == Bad::NotJson { return "{ \"services\": ".into(); }
        let mut services = serde_json::Map::new();
        for s in &self.svcs {
            let mut o = json!({
                "type": match s.kind { SvcKind::Dynamic => "dynamic", SvcKind::Auth => "auth", SvcKind::RateLimit => "ratelimit", SvcKind::Check => "ratelimit-check", SvcKind::Report => "ratelimit-report" },
                "endpoint": s.endpoint, "failureMode": if s.deny { "deny" } else { "allow" }, "timeout": format!("{}ms", s.timeout_ms),
            });
            if s.kind == SvcKind::Dynamic {
                o["grpcService"] = json!(s.grpc);
                o["grpcMethod"] = json!(s.method());
            }
            services.insert(s.name.clone(), o);
        }
        if self.tracing { services.insert("tracer".into(), { let (e, t) = self.tracer(); json!({"type": "tracing", "endpoint": e, "failureMode": "allow", "timeout": format!("{t}ms")}) }); }
        let mut sets: Vec<J> = self.sets.iter().map(|s| json!({
            "name": s.name,
            "routeRuleConditions": { "hostnames": s.hosts, "predicates": s.preds.iter().map(|p| p.cel()).collect::<Vec<_>>() },
            "actions": s.acts.iter().enumerate().map(|(i, a)| match a { Act::T(t) => t.json(&i.to_string(), false), Act::L(l) => l.json() }).collect::<Vec<_>>(),
        })).collect();
        // the message an action builds is of the type its service's method takes
        fn retype(v: &mut J, again: &[&str]) {
            match v {
                J::Array(a) => a.iter_mut().for_each(|x| retype(x, again)),
                J::Object(o) => {
                    if o.get("service").and_then(|s| s.as_str()).is_some_and(|s| again.contains(&s)) {
                        if let Some(J::String(b)) = o.get_mut("messageBuilder") { *b = b.replacen("sim.v1.Req{", "sim.v1.Req2{", 1); }
                    }
                    o.values_mut().for_each(|x| retype(x, again));
                }
                _ => {}
            }
        }
        let again: Vec<&str> = self.svcs.iter().filter(|s| s.again).map(|s| s.name.as_str()).collect();
        sets.iter_mut().for_each(|s| retype(s, &again));
        match self.bad {
            Bad::BadPredicate => sets.push(json!({"name": "bad", "routeRuleConditions": {"hostnames": ["bad.example"], "predicates": ["request.path =="]}, "actions": []})),
            Bad::UnknownService => sets.push(json!({"name": "bad", "routeRuleConditions": {"hostnames": ["bad.example"], "predicates": []}, "actions": [{"service": "nobody", "scope": "x"}]})),
            _ => {}
        }
        let mut obs = serde_json::Map::new();
        if let Some(h) = &self.ident { obs.insert("httpHeaderIdentifier".into(), json!(h)); }
        if self.tracing { obs.insert("tracing".into(), json!({"service": "tracer"})); }
        if let Some(l) = &self.level { obs.insert("defaultLevel".into(), json!(l)); }
        let mut o = json!({ "services": services, "actionSets": sets, "observability": obs,
            "requestData": self.request_data.iter().map(|(k, e)| (k.clone(), json!(match e { Expr::RespBody(p) => format!("responseBodyJSON({})", q(p)), e => e.cel() }))).collect::<serde_json::Map<_, _>>() });
        if let Some(d) = &self.descriptor_service { o["descriptorService"] = json!(d); }
        if self.bad == Bad::MissingField { o.as_object_mut().unwrap().remove("services"); }
        o.to_string()
    }
}
