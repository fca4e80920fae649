//! Seed -> plan. Everything a run does is decided here, from one PRNG.
use crate::host::*;
use crate::model::{select, Sel};
use crate::plan::*;
use crate::rng::*;
use std::collections::BTreeMap;

/// What a profile emphasises. Percentages.
#[derive(Clone)]
pub struct Prof {
    pub streams: (u64, u64),
    pub acts: (u64, u64),
    pub sets: u64,
    pub cfgs: u64,
    pub bad_cfg: u64,
    pub legacy: u64,
    pub guard: u64,
    pub req_body: u64,
    pub body_ptr: u64,
    pub resp_ptr: u64,
    pub sse: u64,
    pub deny_mode: u64,
    pub fail_out: u64,
    pub slow: u64,
    pub host_fault: u64,
    pub disconnect: u64,
    pub early: u64,
    pub trailers: u64,
    pub trace: u64,
    pub ident: u64,
    pub store: u64,
    pub headers: u64,
    pub kids: u64,
    pub desc_fault: u64,
    pub early_streams: bool,
    pub transient: u64,
    pub chaos: bool,
    pub spread: u64,
    /// references to replies of calls that do not enclose the reference
    pub foreign: u64,
    /// stores to a path another action stores too
    pub dup: u64,
    /// requests that are gRPC calls, expressions that ask which
    pub grpc: u64,
    /// single hostcalls of a request refused, of these kinds
    pub nth: u64,
    pub sites: &'static [&'static str],
    /// runs in which texts are long and things many
    pub big: u64,
}

pub const PROFILES: [&str; 19] = ["general", "guards", "failure", "body", "stream", "usage", "legacy", "desc", "reload", "trace", "headers", "store", "disc", "chaos", "wide", "retrace", "denied", "storm", "large"];

pub fn prof(name: &str) -> Prof {
    let base = Prof { streams: (2, 6), acts: (1, 4), sets: 3, cfgs: 1, bad_cfg: 0, legacy: 15, guard: 60, req_body: 50, body_ptr: 30, resp_ptr: 25, sse: 30, deny_mode: 50, fail_out: 20, slow: 8, host_fault: 6, disconnect: 4,
        early: 15, trailers: 10, trace: 8, ident: 20, store: 30, headers: 30, kids: 70, desc_fault: 10, early_streams: false, transient: 0, chaos: false, spread: 120, foreign: 3, dup: 12, grpc: 8, nth: 5, sites: &["set_map_request", "set_map_response", "set_property", "dispatch_grpc_call"], big: 5 };
    match name {
        "guards" => Prof { streams: (2, 7), acts: (2, 5), guard: 85, fail_out: 15, early: 20, resp_ptr: 10, legacy: 20, ..base },
        "failure" => Prof { nth: 30, fail_out: 55, slow: 20, host_fault: 30, deny_mode: 55, legacy: 25, ..base },
        "body" => Prof { acts: (2, 5), guard: 75, req_body: 92, body_ptr: 85, resp_ptr: 10, store: 60, fail_out: 8, legacy: 0, host_fault: 2, ..base },
        "stream" => Prof { resp_ptr: 85, sse: 60, req_body: 30, body_ptr: 10, guard: 35, fail_out: 10, host_fault: 2, legacy: 30, trailers: 15, ..base },
        "usage" => Prof { streams: (2, 5), acts: (1, 3), resp_ptr: 95, sse: 50, req_body: 20, body_ptr: 5, guard: 25, fail_out: 12, host_fault: 0, legacy: 55, early: 10, trailers: 20, ..base },
        "legacy" => Prof { nth: 10, legacy: 65, fail_out: 25, resp_ptr: 30, ..base },
        "desc" => Prof { desc_fault: 70, early_streams: true, streams: (0, 3), cfgs: 3, bad_cfg: 15, sets: 2, legacy: 0, spread: 4000, ..base },
        "reload" => Prof { cfgs: 4, bad_cfg: 40, sets: 4, streams: (3, 9), spread: 1500, early_streams: true, fail_out: 10, legacy: 20, trace: 35, ident: 45, ..base },
        "trace" => Prof { trace: 100, ident: 70, streams: (2, 7), sets: 2, ..base },
        "retrace" => Prof { cfgs: 4, bad_cfg: 25, sets: 2, acts: (2, 5), streams: (3, 7), spread: 300, legacy: 20, trace: 55, ident: 92, slow: 25, ..base },
        "headers" => Prof { nth: 12, sites: &["set_map_request", "set_map_response"], headers: 80, store: 20, ident: 40, grpc: 30, guard: 60, ..base },
        "store" => Prof { nth: 15, sites: &["set_property", "set_property", "dispatch_grpc_call"], store: 85, body_ptr: 40, kids: 90, ..base },
        "wide" => Prof { streams: (1, 3), acts: (10, 14), sets: 1, legacy: 0, kids: 50, foreign: 18, resp_ptr: 10, req_body: 20, body_ptr: 10, fail_out: 10, host_fault: 0, guard: 50, grpc: 20, dup: 25, ..base },
        // many calls out at once, and verdicts that come in while others are
        "denied" => Prof { streams: (2, 5), acts: (3, 8), sets: 1, legacy: 3, guard: 65, fail_out: 40, deny_mode: 70, kids: 30, headers: 15, store: 10, req_body: 15, body_ptr: 0, resp_ptr: 8, slow: 15, host_fault: 2, disconnect: 6, trace: 20, ..base },
        // as many requests at once as a busy worker thread serves
        "storm" => Prof { streams: (20, 45), acts: (1, 4), sets: 4, cfgs: 2, bad_cfg: 15, spread: 60, trace: 40, ident: 50, slow: 20, fail_out: 12, disconnect: 8, legacy: 20, ..base },
        // long bodies, names, values and lists
        "large" => Prof { big: 100, streams: (1, 4), req_body: 70, resp_ptr: 40, headers: 50, trace: 40, ident: 50, ..base },
        "disc" => Prof { disconnect: 60, streams: (3, 8), trace: 25, ..base },
        "chaos" => Prof { transient: 80, chaos: true, disconnect: 10, trace: 20, host_fault: 15, streams: (2, 6), cfgs: 2, bad_cfg: 15, desc_fault: 15, ..base },
        _ => base,
    }
}

struct StoreInfo { path: String, class: u8, has_body: bool, has_attr: bool }

struct G<'p> {
    r: Rng,
    p: &'p Prof,
    /// stores made so far in the current set
    stores: Vec<StoreInfo>,
    nvar: u32,
    /// names replies are bound to anywhere in the current set
    allvars: Vec<String>,
    /// reply variables of the actions of the set so far, and the action being made
    topvars: Vec<(usize, String)>,
    at: usize,
    /// paths some expression of the current set reads
    referenced: Vec<String>,
    nstore: u32,
    seen_nonguard: bool,
    seen_resp_hdr: bool,
    /// a step that only completes once response data has been seen
    seen_late: bool,
    fence_late: bool,
    /// nothing may end the request after it has started to depend on the request body
    may_early: bool,
    reqptrs: Vec<String>,
    /// predicates may look into the request body
    rb: bool,
    big: bool,
}

const REQ_PTRS: [&str; 18] = ["/model", "/user/id", "/opts/max", "/stream", "/model", "/user/id", "/model", "/model", "/user/id", "/user/id", "/opts/max", "/opts/max", "/missing", "/stream", "/stream", "/msgs/1/role", "/a~1b~0c", "/user"];
const RESP_PTRS: [&str; 4] = ["/usage/total_tokens", "/usage/kind", "/id", "/usage/missing"];

/// context for expressions: enclosing reply variables, and the latest class of store that may be used
#[derive(Clone)]
struct Cx { vars: Vec<String>, max_class: u8 }

impl<'p> G<'p> {
    fn lit(&mut self) -> Expr { let n = self.r.below(1000); let l = self.long(8); Expr::Lit(format!("l{n}{l}")) }
    /// now and then, where things are large, some hundred or thousand characters
    fn long(&mut self, percent: u64) -> String {
        if !self.big || !self.r.chance(percent) { return String::new() }
        let n = match self.r.below(4) { 0 => self.r.range(30, 300), 1 | 2 => self.r.range(200, 1500), _ => self.r.range(1000, 6000) };
        (0..n).map(|i| (b'a' + (i * 7 % 26) as u8) as char).collect()
    }
    /// always evaluable
    fn plain(&mut self) -> Expr {
        match self.r.below(6) {
            0 => self.lit(),
            1 => Expr::ReqHdr("x-plan".into()),
            2 => Expr::ReqHdr("x-sid".into()),
            3 | 4 if self.r.chance(self.p.grpc) => Expr::Attr((*self.r.pick(&["request.grpc.service", "request.grpc.method"])).into()),
            3 => Expr::Attr((*self.r.pick(&["request.path", "request.method", "request.host"])).into()),
            4 => Expr::Attr((*self.r.pick(&["source.address", "source.remote_address", "source.remote_address", "source.port", "destination.address", "destination.port", "request.url_path", "request.query", "request.scheme", "request.protocol", "request.useragent", "request.id", "request.size", "connection.id", "connection.mtls", "request.grpc.service", "request.grpc.method"])).into()),
            _ => Expr::Cat(vec![self.lit(), Expr::ReqHdr("x-sid".into())]),
        }
    }
    fn hdr_or_lit(&mut self) -> Expr {
        match self.r.below(3) { 0 => self.lit(), 1 => Expr::ReqHdr("x-plan".into()), _ => Expr::ReqHdr("x-sid".into()) }
    }
    fn stored(&mut self, cx: &Cx) -> Option<Expr> {
        let v: Vec<String> = self.stores.iter().filter(|s| s.class <= cx.max_class).map(|s| s.path.clone()).collect();
        if v.is_empty() { None } else { let p = self.r.pick(&v).clone(); self.referenced.push(p.clone()); Some(Expr::Stored(p)) }
    }
    /// the variable of some call of the set, often one whose place has a name this place's name begins with
    fn foreign_var(&mut self) -> String {
        let near: Vec<String> = self.topvars.iter().filter(|(i, _)| self.at >= 10 && *i == self.at / 10).map(|x| x.1.clone()).collect();
        if !near.is_empty() && self.r.chance(85) { near[0].clone() } else { self.r.pick(&self.allvars).clone() }
    }
    /// an expression for a message, header value, deny body ...
    fn expr(&mut self, cx: &Cx) -> Expr {
        if !cx.vars.is_empty() && self.r.chance(45) {
            let v = self.r.pick(&cx.vars).clone();
            return self.reply_field(v, 70);
        }
        if self.r.chance(self.p.store) { if let Some(s) = self.stored(cx) { return if self.r.chance(30) { Expr::Cat(vec![s, self.hdr_or_lit()]) } else { s } } }
        if !self.allvars.is_empty() && self.r.chance(if self.at >= 10 { self.p.foreign * 3 } else { self.p.foreign }) { return Expr::Tag(self.foreign_var()) }
        if self.r.chance(3) { return Expr::ReqHdr("x-nope".into()) }
        self.plain()
    }
    /// a value of the request body, looked for by the action itself
    fn own_body(&mut self) -> Expr {
        let p = (*self.r.pick(&REQ_PTRS)).to_string();
        self.reqptrs.push(p.clone());
        self.may_early = false;
        Expr::ReqBody(p)
    }
    fn body_pred(&mut self) -> Pred {
        let e = self.own_body();
        let v = match &e { Expr::ReqBody(p) if p == "/stream" => "on", _ => (*self.r.pick(&["gpt", "10", "true", ""])) }.to_string();
        if self.r.chance(if v == "on" { 50 } else { 80 }) { Pred::Ne(e, v) } else { Pred::Eq(e, v) }
    }
    fn pred(&mut self, cx: &Cx) -> Pred {
        if self.rb && self.r.chance(self.p.body_ptr / 8) {
            let p = self.body_pred();
            return match self.r.below(4) {
                0 => Pred::And(Box::new(p), Box::new(Pred::Eq(Expr::ReqHdr("x-plan".into()), "gold".into()))),
                1 => match self.stored(cx) { Some(s) => Pred::Or(Box::new(p), Box::new(Pred::Ne(s, "zz".into()))), None => p },
                _ => p,
            };
        }
        let simple = |g: &mut Self, cx: &Cx| -> Pred {
            if !cx.vars.is_empty() && g.r.chance(60) {
                let v = g.r.pick(&cx.vars).clone();
                return match g.r.below(3) { 0 => Pred::CodeIs(v, 1), 1 => Pred::CodeGe(v, 2), _ => Pred::Ne(Expr::Tag(v), "zz".into()) };
            }
            match g.r.below(6) {
                0 => Pred::Eq(Expr::ReqHdr("x-plan".into()), (*g.r.pick(&["gold", "free"])).into()),
                1 => Pred::Ne(Expr::ReqHdr("x-plan".into()), (*g.r.pick(&["gold", "free"])).into()),
                2 => Pred::Eq(Expr::Attr("request.method".into()), "GET".into()),
                3 => Pred::Ne(Expr::Attr("request.path".into()), "/deny".into()),
                _ => match g.stored(cx) { Some(s) if g.r.chance(50) => if g.r.chance(50) { Pred::Ne(s, "zz".into()) } else { Pred::Eq(s, (*g.r.pick(&["gold", "free"])).into()) }, _ => Pred::True },
            }
        };
        if !self.allvars.is_empty() && self.r.chance(self.p.foreign / 3) { let v = self.foreign_var(); return if self.r.chance(50) { Pred::CodeIs(v, 1) } else { Pred::Ne(Expr::Tag(v), "zz".into()) } }
        match self.r.below(20) {
            0..=8 => Pred::True,
            9 => Pred::False,
            10 if self.r.chance(30) => Pred::Broken,
            11 => { let a = simple(self, cx); let b = simple(self, cx); Pred::And(Box::new(a), Box::new(b)) }
            12 => { let a = simple(self, cx); let b = simple(self, cx); Pred::Or(Box::new(a), Box::new(b)) }
            _ => simple(self, cx),
        }
    }
    /// a predicate over things that exist from the start
    fn plain_pred(&mut self) -> Pred { let cx = Cx { vars: vec![], max_class: 0 }; let saved = std::mem::take(&mut self.stores); let sv = std::mem::take(&mut self.allvars); let rb = std::mem::take(&mut self.rb); let p = self.pred(&cx); self.rb = rb; self.stores = saved; self.allvars = sv; if p == Pred::Broken { Pred::True } else { p } }

    fn class_of(&self, e: &Expr, own: u8) -> u8 {
        let mut c = own;
        e.walk(&mut |x| match x {
            Expr::Stored(p) => c = c.max(self.stores.iter().find(|s| &s.path == p).map(|s| s.class).unwrap_or(0)),
            Expr::ReqBody(_) => c = c.max(1),
            Expr::RespBody(_) => c = c.max(3),
            _ => {}
        });
        c
    }
    fn pred_class(&self, p: &Pred) -> u8 { let mut c = 0; p.walk(&mut |e| c = c.max(self.class_of(e, 0))); c }

    fn store(&mut self, cx: &Cx, own: u8, allow_body: bool) -> Typed {
        let body = allow_body && self.r.chance(self.p.body_ptr);
        let resp = allow_body && !body && cx.max_class >= 3 && self.r.chance(self.p.resp_ptr / 2);
        let value;
        let mut pred = Pred::True;
        if body || resp {
            let p = if body { (*self.r.pick(&REQ_PTRS)).to_string() } else { (*self.r.pick(&RESP_PTRS)).to_string() };
            // no Attr mixed in: a host fault on it would interact with the instant the body value arrives
            let e = if body { Expr::ReqBody(p.clone()) } else { Expr::RespBody(p.clone()) };
            if body { self.reqptrs.push(p); self.may_early = false; }
            // several of them, one of them more than once
            let more = |g: &mut Self| -> Expr { let q = if body { (*g.r.pick(&REQ_PTRS)).to_string() } else { (*g.r.pick(&RESP_PTRS)).to_string() }; if body { g.reqptrs.push(q.clone()); Expr::ReqBody(q) } else { Expr::RespBody(q) } };
            value = match self.r.below(8) { 0 | 1 => Expr::Cat(vec![self.lit(), e]), 2 => { let m = more(self); Expr::Cat(vec![e.clone(), m, e]) } 3 => { let m = more(self); Expr::Cat(vec![m, e]) } _ => e };
            if self.r.chance(12) { let m = more(self); let w = self.r.chance(50); let v = (*self.r.pick(&["gpt", "user", "10", "true"])).to_string(); pred = if w { Pred::Ne(m, v) } else { Pred::Eq(m, v) }; }
            else if self.r.chance(25) { pred = match self.r.below(3) { 0 => Pred::Eq(Expr::ReqHdr("x-plan".into()), "gold".into()), 1 => Pred::Ne(Expr::ReqHdr("x-plan".into()), "free".into()), _ => Pred::False }; }
        } else {
            value = self.expr(cx);
            let rb = std::mem::take(&mut self.rb);
            pred = self.pred(cx);
            self.rb = rb;
        }
        let class = self.class_of(&value, own).max(self.pred_class(&pred));
        // only paths nothing refers to yet: no step waits for a store that waits for it
        let reuse: Vec<String> = self.stores.iter().map(|s| s.path.clone()).filter(|p| !self.referenced.contains(p)).collect();
        let dup = !reuse.is_empty() && self.r.chance(self.p.dup);
        let path = if dup { self.r.pick(&reuse).clone() } else { self.nstore += 1; format!("st{}.v", self.nstore) };
        let mut has_attr = false;
        value.walk(&mut |e| if matches!(e, Expr::Attr(_)) { has_attr = true });
        let t = Typed { pred, terminal: false, guard: false, seq: false, op: Op::Store { path: path.clone(), value, export: self.r.chance(50) } };
        match self.stores.iter_mut().find(|s| s.path == path) {
            Some(s) => { s.class = s.class.max(class); s.has_body |= body || resp; s.has_attr |= has_attr; }
            None => self.stores.push(StoreInfo { path, class, has_body: body || resp, has_attr }),
        }
        t
    }
    fn deny(&mut self, cx: &Cx, top: bool) -> Typed {
        let status = *self.r.pick(&[401u32, 403, 429, 418]);
        let mut headers = vec![];
        let cx0 = Cx { vars: cx.vars.clone(), max_class: 0 };
        for i in 0..if self.big && self.r.chance(40) { self.r.range(3, 14) } else { self.r.below(3) } {
            let e = if top { self.hdr_or_lit() } else { let saved = if top { vec![] } else { std::mem::take(&mut self.stores) }; let e = self.safe(&cx0); self.stores = saved; e };
            let k = self.spell(&format!("x-deny-{i}")); headers.push((k, e));
        }
        let body = if top { self.hdr_or_lit() } else { self.safe(&cx0) };
        let body = if self.r.chance(20) { Expr::Lit(String::new()) } else if self.big && self.r.chance(30) { self.lit() } else { body };
        let mut cxp = cx.clone();
        cxp.max_class = cxp.max_class.min(2);
        let mut pred = self.pred(&cxp);
        if top && matches!(pred, Pred::True) { pred = Pred::Eq(Expr::ReqHdr("x-plan".into()), "free".into()); }
        Typed { pred, terminal: true, guard: false, seq: false, op: Op::Deny { status, headers, body, wrong: if self.r.chance(6) { self.r.range(1, 6) as u8 } else { 0 }, from: if top { None } else { self.from(cx) } } }
    }
    /// what a reply lists as headers, where one is in scope
    fn from(&mut self, cx: &Cx) -> Option<crate::plan::From> {
        if cx.vars.is_empty() || !self.r.chance(30) { return None }
        Some(crate::plan::From { var: self.r.pick(&cx.vars).clone(), nested: self.r.chance(50), first: self.r.chance(50) })
    }
    fn reply_field(&mut self, v: String, tag: u64) -> Expr {
        if self.r.chance(35) { let k = self.r.below(crate::wire::REP_TEXTS as u64) as usize; return Expr::Rep(v, k) }
        if self.r.chance(tag) { Expr::Tag(v) } else { Expr::Code(v) }
    }
    /// further fields of a message; rarely one that does not fit
    fn rich(&mut self, cx: &Cx) -> Vec<Rich> {
        if !self.r.chance(if cx.vars.is_empty() { 30 } else { 50 }) { return vec![] }
        let mut v: Vec<Rich> = vec![];
        for _ in 0..self.r.range(1, 4) {
            let odd = self.r.chance(4);
            let big = *self.r.pick(&[i32::MAX as i64 + 1, i32::MIN as i64 - 1, i64::MAX, i64::MIN + 1, 1 << 32]);
            let n = *self.r.pick(&[0, 1, -1, 77, i32::MAX as i64, i32::MIN as i64]);
            let x = match self.r.below(18) {
                0 => Rich::N(if odd || self.r.chance(30) { big } else { n }), 1 => Rich::I(if odd { big } else { n }), 2 => Rich::U(if odd { *self.r.pick(&[1 << 32, (1 << 32) + 5, u64::MAX]) } else { *self.r.pick(&[0, 1, 3, u32::MAX as u64]) }),
                3 => Rich::Ul(*self.r.pick(&[0, 9, 1 << 40, u64::MAX])), 4 => Rich::F((*self.r.pick(&["in0", "gold", "a"])).into()), 5 => Rich::D((*self.r.pick(&["0.0", "2.5", "-0.125", "1000000000000.0"])).into()),
                6 => Rich::Fl(if odd { (*self.r.pick(&["1.0e39", "-1.0e39"])).into() } else { (*self.r.pick(&["0.5", "-8.0", "3.0"])).into() }), 7 => Rich::E(if odd { *self.r.pick(&[3, -1, 1 << 32, i32::MIN as i64, i32::MIN as i64 - 1, i32::MAX as i64 + 1]) } else { self.r.below(3) as i64 }),
                8 => Rich::Sub(big), 9 => Rich::Rs, 10 => Rich::Ri(match self.r.below(3) { 0 => vec![], 1 => vec![0, -1, 3], _ => vec![big] }), 11 => Rich::Mp, 12 => Rich::By, 13 => Rich::Ts(self.r.below(60) as i64, self.r.below(1000) as i32),
                14 => Rich::Subs, 15 => Rich::Opt(self.r.chance(50)), 16 => Rich::Si(if odd { big } else { n }), _ => Rich::Im(if odd { big } else { n }),
            };
            let x = if !cx.vars.is_empty() && self.r.chance(60) { Rich::Of(self.r.pick(&cx.vars).clone(), self.r.below(Rich::OF.len() as u64) as u8) } else { x };
            if !v.iter().any(|y| y.field() == x.field()) { v.push(x); }
        }
        v
    }
    /// evaluable whenever the enclosing reply is
    fn safe(&mut self, cx: &Cx) -> Expr {
        if !cx.vars.is_empty() && self.r.chance(60) { let v = self.r.pick(&cx.vars).clone(); return self.reply_field(v, 75) }
        self.hdr_or_lit()
    }
    /// header names mean the same whatever their case
    fn spell(&mut self, k: &str) -> String {
        if !self.r.chance(15) { return k.into() }
        let mut up = true;
        k.chars().map(|c| { let r = if up { c.to_ascii_uppercase() } else { c }; up = c == '-'; r }).collect()
    }
    fn hdrs(&mut self, cx: &Cx, response: bool) -> Typed {
        let n = if self.r.chance(10) { 0 } else { self.r.range(1, 2) };
        let mut items = vec![];
        for _ in 0..n {
            let k = *self.r.pick(&["x-h0", "x-h0", "x-h1", "x-h1", "x-plan", "x-plan", "x-up", "x-up", "x-raw"]);
            if items.iter().any(|(a, _): &(String, Expr)| a.eq_ignore_ascii_case(k)) { continue }
            let e = self.expr(cx);
            items.push((self.spell(k), e));
        }
        let from = self.from(cx);
        let pred = self.pred(cx);
        if response { self.seen_resp_hdr = true; }
        Typed { pred, terminal: !response && self.r.chance(3), guard: false, seq: false, op: Op::Headers { response, items, from } }
    }
    fn grpc(&mut self, cx: &Cx, svcs: &[Svc], guard: bool, depth: u32, resp: bool, top: bool) -> Typed {
        let late = resp;
        let deny_ok = guard || late;
        let cand: Vec<String> = svcs.iter().filter(|s| s.kind == SvcKind::Dynamic && (deny_ok || !s.deny)).map(|s| s.name.clone()).collect();
        let svc = self.r.pick(&cand).clone();
        self.nvar += 1;
        // calls beside one another may use the same name, nested ones do not
        let var = if top && self.r.chance(40) { "r".to_string() } else { format!("v{}", self.nvar) };
        self.allvars.push(var.clone());
        let mut cxm = cx.clone();
        if guard { cxm.max_class = cxm.max_class.min(2); }
        let (a, b, pred);
        if resp {
            let p = (*self.r.pick(&RESP_PTRS)).to_string();
            a = Expr::RespBody(p.clone());
            b = if self.r.chance(30) { Expr::RespBody((*self.r.pick(&RESP_PTRS)).to_string()) } else if self.rb && self.r.chance(self.p.body_ptr / 2 + 8) { self.own_body() } else { self.hdr_or_lit() };
            pred = match self.r.below(6) { 0 => Pred::Ne(Expr::RespBody(p), "0".into()), 1 => Pred::Eq(Expr::ReqHdr("x-plan".into()), "gold".into()), 2 if self.r.chance(30) => Pred::False, _ => Pred::True };
        } else {
            // a call that can be made as soon as part of the body is there
            let early: Vec<String> = self.stores.iter().filter(|s| s.has_body && s.class <= 2).map(|s| s.path.clone()).collect();
            a = if guard && !early.is_empty() && self.r.chance(self.p.body_ptr / 2) { let x = self.r.pick(&early).clone(); self.referenced.push(x.clone()); Expr::Stored(x) } else if self.rb && self.r.chance(self.p.body_ptr / 5) { let e = self.own_body(); match self.r.below(3) { 0 => { let m = self.own_body(); Expr::Cat(vec![e, m]) } 1 => { let m = self.expr(&cxm); let mut at = false; m.walk(&mut |x| if matches!(x, Expr::Attr(_)) { at = true }); if at { e } else { Expr::Cat(vec![m, e]) } } _ => e } } else { self.expr(&cxm) };
            b = if self.r.chance(50) { self.expr(&cxm) } else { self.hdr_or_lit() };
            pred = self.pred(&cxm);
        }
        let own = if guard { 2 } else { 3 };
        let mut on_reply = vec![];
        if depth < 2 && self.r.chance(self.p.kids) {
            let mut cxk = cx.clone();
            cxk.vars.push(var.clone());
            cxk.max_class = if guard { 2 } else { 3 };
            let n = self.r.range(1, 3);
            for _ in 0..n {
                let k = self.r.below(100);
                let t = if guard {
                    match k {
                        0..=29 => self.deny(&cxk, false),
                        30..=49 => self.hdrs(&cxk, false),
                        50..=57 => self.hdrs(&cxk, true),
                        58..=77 => { let body = self.p.body_ptr > 50 || self.rb && self.r.chance(30); self.store(&cxk, own, body) }
                        78..=85 => Typed { pred: self.pred(&cxk), terminal: self.r.chance(50), guard: false, seq: false, op: Op::Fail },
                        _ => { let g = self.r.chance(self.p.guard); self.grpc(&cxk, svcs, g, depth + 1, false, false) }
                    }
                } else if late {
                    match k { 0..=39 => { let body = self.r.chance(30); self.store(&cxk, 3, body) } _ => Typed { pred: self.pred(&cxk), terminal: false, guard: false, seq: false, op: Op::Fail } }
                } else {
                    match k {
                        0..=39 => { let body = self.r.chance(30); self.store(&cxk, 3, body) }
                        40..=64 => self.hdrs(&cxk, true),
                        65..=79 => Typed { pred: self.pred(&cxk), terminal: false, guard: false, seq: false, op: Op::Fail },
                        _ => { let mut t = self.grpc(&cxk, svcs, false, depth + 1, false, false); t.guard = self.r.chance(self.p.guard / 2); t }
                    }
                };
                // nothing under a plain call may end the request
                let t = if !guard && t.terminal { Typed { terminal: false, ..t } } else { t };
                on_reply.push(t);
            }
        }
        let _ = top;
        let rich = self.rich(cx);
        Typed { pred, terminal: false, guard, seq: false, op: Op::Grpc { svc, var, a, b, on_reply, rich } }
    }
    fn may_body(&self) -> bool { true }

    fn typed_set(&mut self, svcs: &[Svc]) -> Vec<Act> {
        self.stores.clear();
        self.allvars.clear();
        self.topvars.clear();
        self.at = 0;
        self.referenced.clear();
        self.seen_nonguard = false;
        self.seen_resp_hdr = false;
        self.seen_late = false;
        self.fence_late = false;
        self.may_early = true;
        self.rb = self.r.chance(self.p.body_ptr + 10);
        let n = { let more = if self.big && self.r.chance(30) { 9 } else { 0 }; self.r.range(self.p.acts.0, self.p.acts.1 + more) };
        let mut out = vec![];
        let cx = Cx { vars: vec![], max_class: 3 };
        // authorisation and rate-limit actions amid the others: each waits for the action before it
        let mix = self.r.chance(self.p.legacy);
        let mut auth_at = None;
        for _ in 0..n {
            if mix && self.r.chance(35) && !self.seen_nonguard && !self.seen_resp_hdr && !self.seen_late && !self.fence_late {
                let a = self.legacy_one(svcs, out.len(), &mut auth_at);
                out.push(a);
                self.at = out.len();
                continue;
            }
            // where bodies matter, what is taken from them comes first and the calls made of it after
            let k = if self.p.body_ptr > 50 && out.len() < 2 && self.r.chance(55) { 50 } else { self.r.below(100) };
            let t = if k < 45 {
                let resp = self.r.chance(self.p.resp_ptr);
                let guard = !resp && !self.fence_late && self.r.chance(self.p.guard);
                let mut t = self.grpc(&cx, svcs, guard, 0, resp, true);
                // a sequential step waits for everything before it
                if self.r.chance(35) {
                    if guard { if !self.seen_nonguard && !self.seen_resp_hdr && !self.seen_late { t.seq = true; } }
                    else if !self.seen_resp_hdr && deny_free(svcs, &t) || resp { if !self.seen_resp_hdr { t.seq = true; self.fence_late = true; } }
                }
                if !guard { self.seen_nonguard = true; if resp { self.seen_late = true } }
                t
            } else if k < 45 + self.p.store * 2 / 5 {
                let t = self.store(&cx, 0, true);
                if self.stores.last().is_some_and(|s| s.class >= 3) { self.seen_late = true; }
                t
            } else if k < 45 + self.p.store * 2 / 5 + self.p.headers / 3 {
                let response = self.r.chance(45);
                let cxh = if response { cx.clone() } else { Cx { vars: vec![], max_class: 2 } };
                self.hdrs(&cxh, response)
            } else if k < 88 && !(self.p.acts.1 > 8 && self.r.chance(80)) {
                // (long sets would hardly ever run to their end)
                self.deny(&cx, true)
            } else if (88..92).contains(&k) {
                Typed { pred: self.plain_pred(), terminal: false, guard: false, seq: false, op: Op::Fail }
            } else {
                let g = !self.fence_late;
                let t = self.grpc(&cx, svcs, g, 0, false, true);
                if !g { self.seen_nonguard = true; }
                t
            };
            if let Op::Grpc { var, .. } = &t.op { self.topvars.push((out.len(), var.clone())); }
            out.push(Act::T(t));
            self.at = out.len();
        }
        // reports of response usage usually close an action set
        if self.r.chance(self.p.resp_ptr / 2) { let mut t = self.grpc(&cx, svcs, false, 1, true, true); if self.r.chance(30) && !self.seen_resp_hdr { t.seq = true; } out.push(Act::T(t)); }
        else if mix && !self.seen_resp_hdr && self.r.chance(40) { let a = self.report(svcs, out.len()); out.push(a); }
        out
    }

    /// an authorisation or rate-limit action at this place of a set
    fn legacy_one(&mut self, svcs: &[Svc], at: usize, auth_at: &mut Option<bool>) -> Act {
        let kinds = [SvcKind::Auth, SvcKind::RateLimit, SvcKind::Check];
        let kind = if at == 0 && self.r.chance(50) { SvcKind::Auth } else { *self.r.pick(&kinds) };
        let cand: Vec<&Svc> = svcs.iter().filter(|s| s.kind == kind).collect();
        let svc = (*self.r.pick(&cand)).clone();
        let scope = format!("s{at}");
        let mut preds = vec![];
        while preds.len() < 3 && self.r.chance(30) { preds.push(self.plain_pred()); }
        if self.rb && self.r.chance(20) { preds.push(self.body_pred()); }
        let mut cond = vec![];
        if kind != SvcKind::Auth {
            for b in 0..self.r.below(3) {
                let mut bp = vec![];
                for _ in 0..*self.r.pick(&[0, 0, 0, 1, 1, 2, 3]) { bp.push(self.plain_pred()); }
                let mut data = vec![(format!("k{b}"), self.plain())];
                if self.rb && self.r.chance(15) { bp.push(self.body_pred()); }
                if self.rb && self.r.chance(40) { let e = self.own_body(); data.push((format!("m{b}"), e)); }
                if self.r.chance(40) { let l = self.lit(); data.push((format!("s{b}"), l)); }
                if *auth_at == Some(true) && self.r.chance(40) { data.push((format!("id{b}"), Expr::Stored("auth.identity".into()))); }
                cond.push(CondData { preds: bp, data });
            }
        } else if auth_at.is_none() { *auth_at = Some(svc.deny && preds.is_empty()); }
        let limits = kind != SvcKind::Auth;
        let hits = if limits && self.r.chance(20) { Some(Expr::Lit(format!("{}", self.r.below(9)))) } else { None };
        let domain = if limits && self.r.chance(15) { Some(self.domain(&scope)) } else { None };
        Act::L(Legacy { svc: svc.name.clone(), scope, preds, cond, hits, domain })
    }
    fn domain(&mut self, scope: &str) -> Expr {
        let own = Expr::Lit(format!("{scope}~own"));
        if self.r.chance(50) { own } else { let e = self.hdr_or_lit(); Expr::Cat(vec![own, e]) }
    }
    fn report(&mut self, svcs: &[Svc], at: usize) -> Act {
        let resp = self.r.chance(self.p.resp_ptr.max(40));
        let cand: Vec<&Svc> = svcs.iter().filter(|s| s.kind == SvcKind::Report && (resp || !s.deny)).collect();
        let svc = (*self.r.pick(&cand)).clone();
        let hits = if resp { Some(Expr::RespBody("/usage/total_tokens".into())) } else if self.r.chance(50) { Some(Expr::Lit(format!("{}", self.r.range(1, 9)))) } else { None };
        let mut cond = vec![];
        if self.rb && self.r.chance(50) { let e = self.own_body(); cond.push(CondData { preds: vec![], data: vec![("model".into(), e)] }); }
        else if self.r.chance(60) { let e = self.plain(); cond.push(CondData { preds: if self.r.chance(30) { vec![self.plain_pred()] } else { vec![] }, data: vec![("route".into(), e)] }); }
        let domain = if self.r.chance(12) { Some(self.domain(&format!("s{at}"))) } else { None };
        Act::L(Legacy { svc: svc.name.clone(), scope: format!("s{at}"), preds: vec![], cond, hits, domain })
    }
    fn legacy_set(&mut self, svcs: &[Svc]) -> Vec<Act> {
        self.stores.clear();
        self.may_early = true;
        self.rb = self.r.chance(self.p.body_ptr.max(25));
        let n = self.r.range(1, 3);
        let mut out = vec![];
        let mut auth_at: Option<bool> = None;
        for i in 0..n {
            let a = self.legacy_one(svcs, i as usize, &mut auth_at);
            out.push(a);
        }
        if self.r.chance(self.p.resp_ptr) || self.r.chance(15) { let a = self.report(svcs, out.len()); out.push(a); }
        out
    }

    fn services(&mut self, v: u64) -> Vec<Svc> {
        let mut out = vec![];
        let to = |g: &mut Self| *g.r.pick(&[20u64, 50, 100, 200]);
        let grpcs = ["sim.v1.Alpha", "sim.v1.Beta", "other.pkg.v2.Gamma"];
        // one of each mode at least; what exists can change between versions
        let n = 2 + self.r.below(2);
        // one name served by several clusters, or several names by one
        let (one_name, one_place) = (self.r.chance(20), self.r.chance(12));
        for i in 0..n {
            let deny = if i == 0 { true } else if i == 1 { false } else { self.r.chance(self.p.deny_mode) };
            let renamed = v > 0 && self.r.chance(25);
            out.push(Svc { name: format!("d{i}"), kind: SvcKind::Dynamic, endpoint: { let i = if one_place { i.min(1) } else { i }; if renamed { format!("dyn-{i}-v{v}") } else { format!("dyn-{i}") } }, grpc: grpcs[if one_name { 0 } else { i as usize }].into(), deny, timeout_ms: to(self), again: self.r.chance(25) });
        }
        for (k, n) in [(SvcKind::Auth, "auth"), (SvcKind::RateLimit, "rl"), (SvcKind::Check, "check"), (SvcKind::Report, "report")] {
            for m in [false, true] { out.push(Svc { name: format!("{n}{}", m as u8), kind: k, endpoint: format!("{n}-{}", m as u8), grpc: String::new(), deny: m, timeout_ms: to(self), again: false }); }
        }
        out
    }

    fn cfg(&mut self, v: u64, at: u64) -> (Cfg, BTreeMap<String, bool>) {
        let svcs = self.services(v);
        let mut sets = vec![];
        let mut early = BTreeMap::new();
        let hostpool = ["a.example.com", "b.example.com", "*.example.com", "*.a.example.com", "*", "other.test"];
        let nsets = self.r.range(1, self.p.sets);
        for i in 0..nsets {
            let legacy = self.r.chance(self.p.legacy);
            let acts = if self.r.chance(4) { vec![] } else if legacy { self.legacy_set(&svcs) } else { self.typed_set(&svcs) };
            let mut hosts = vec![];
            if i == 0 && self.r.chance(60) { hosts.push("*".to_string()); }
            for _ in 0..self.r.range(if hosts.is_empty() { 1 } else { 0 }, 2) { let h = self.r.pick(&hostpool).to_string(); if !hosts.contains(&h) { hosts.push(h); } }
            if self.big && self.r.chance(40) { let at = self.r.below(hosts.len() as u64 + 1) as usize; for k in 0..self.r.range(2, 20) { hosts.insert(at, format!("h{k}.v{v}.set{i}.{}test", "long.".repeat(self.r.below(20) as usize))); } }
            let mut preds = vec![];
            if nsets > 1 && self.r.chance(45) {
                for _ in 0..self.r.range(1, 2) {
                    preds.push(match self.r.below(5) {
                        0 => Pred::Eq(Expr::Attr("request.path".into()), (*self.r.pick(&["/", "/deny", "/api?x=1"])).into()),
                        1 => Pred::Ne(Expr::Attr("request.path".into()), "/".into()),
                        2 => Pred::Eq(Expr::ReqHdr("x-plan".into()), "gold".into()),
                        4 => Pred::Eq(Expr::Attr("request.grpc.service".into()), "pkg.Svc".into()),
                        _ => Pred::Eq(Expr::Attr("request.method".into()), "GET".into()),
                    });
                }
            }
            let name = format!("v{v}-set{i}");
            let mut acts = acts;
            // sets that can only hold a request, never end it: there the upstream may answer before it has all of the body
            if !self.may_early && acts.iter().all(|a| matches!(a, Act::T(_))) && self.r.chance(20) {
                if let Some(k) = svcs.iter().find(|k| k.kind == SvcKind::Dynamic && !k.deny) {
                    for a in acts.iter_mut() { if let Act::T(t) = a { calm(t, &k.name, &svcs); } }
                    self.may_early = true;
                }
            }
            early.insert(name.clone(), self.may_early);
            sets.push(Set { name, hosts, preds, acts });
        }
        let mut request_data = vec![];
        let any_legacy = sets.iter().any(|s| s.acts.iter().any(|a| matches!(a, Act::L(_))));
        if any_legacy && self.r.chance(40) {
            for k in ["tier", "metrics.labels.user", "grp.lvl", "metrics.total", "metrics.labels.sub.x", "a.b.c"] { if self.r.chance(if k.len() == 4 || k.contains("user") || k.contains("lvl") { 50 } else { 15 }) { let e = if k == "tier" { Expr::ReqHdr("x-plan".into()) } else if self.r.chance(12) { self.own_body() } else { self.plain() }; request_data.push((k.to_string(), e)); } }
            let reports = sets.iter().flat_map(|s| s.acts.iter()).any(|a| matches!(a, Act::L(l) if l.svc.starts_with("report")));
            let _ = reports;
        }
        let bad = if v > 0 && self.r.chance(self.p.bad_cfg) || (v == 0 && self.r.chance(self.p.bad_cfg / 4)) {
            *self.r.pick(&[Bad::NotJson, Bad::BadPredicate, Bad::UnknownService, Bad::Absent, Bad::HostError, Bad::MissingField])
        } else { Bad::No };
        let tracing = self.r.chance(self.p.trace);
        let c = Cfg {
            at, fresh: v > 0 && self.r.chance(50), bad, svcs, sets, request_data,
            ident: if self.r.chance(self.p.ident) { Some("x-request-id".into()) } else { None },
            tracing,
            level: if tracing { Some((*self.r.pick(if self.p.cfgs > 1 { &["DEBUG", "INFO", "WARN", "ERROR", "TRACE", "OFF", ""][..] } else { &["DEBUG", "INFO", "DEBUG", "INFO", "TRACE", "INFO", "WARN", "ERROR", "OFF", ""] })).to_string()).filter(|l| !l.is_empty()) } else if self.r.chance(10) { Some("ERROR".into()) } else { None },
            descriptor_service: Some(if v > 0 && self.r.chance(35) { format!("descriptors-{v}") } else { "descriptors".into() }),
        };
        (c, early)
    }

    /// A JSON string as it stands in a document: its value is `base`, or one that takes care to read.
    fn json_str(&mut self, base: &str, raw: bool) -> String {
        let n: String = base.chars().filter(|c| c.is_ascii_digit()).collect();
        let l = self.long(20);
        if !l.is_empty() { return format!("\"{base}{l}{}\"", *self.r.pick(&["", "é", "\\n", "\\u00e9"])) }
        match self.r.below(22) {
            0 => format!("\"{}\\u{:04x}{}\"", &base[..1], base.as_bytes()[1], &base[2..]),
            1 => format!("\"org\\/{base}\""),
            2 => format!("\"caf\\u00e9 {base}\""),
            3 => format!("\"say \\\"{base}\\\" \\\\ \\ud83e\\udd80\""),
            4 => format!("\"00{n}\""),
            5 => format!("\"{n}e1\""),
            6 => (*self.r.pick(&["\"true\"", "\"null\"", "\"inf\"", "\"-0\"", "\"NaN\"", "\"+5\"", "\"1.50\""])).into(),
            7 if raw && self.r.chance(30) => format!("\"{base}\u{f7ff}\""),
            7 if self.r.chance(30) => "\"\"".into(),
            8 => format!("\"{base}-日本\""),
            10 | 12 => format!("\" {}  {} \"", &base[..2], &base[2..]),
            11 | 13 => { let w: String = base.chars().map(|c| format!("{c} ")).collect(); format!("\"{w}\"") }
            9 if self.r.chance(40) => format!("\"{}\u{feff}{}\"", &base[..2], &base[2..]),
            _ => format!("\"{base}\""),
        }
    }
    fn json_text(&mut self, n: u32, req: bool, raw: bool) -> String {
        let pads = ["", "plain padding", "héllo wörld", "日本語テキスト", "🦀🚀 emoji", "ñ", "\\\"model\\\":\\\"no\\\"", "\\\\", "{[,]}", "raw \u{f7e9}\u{f7ff}!"];
        let pad = |g: &mut Self| { let mut s = String::new(); if g.big && g.r.chance(40) { let p = pads[1 + g.r.below(pads.len() as u64 - 1 - !raw as u64) as usize]; let n = match g.r.below(6) { 0 => 70_000, 1 => 20_000, 2 => 6_000, _ => g.r.range(200, 3_000) } as usize; return p.repeat(n / p.len()) } for _ in 0..g.r.below(3) { s.push_str(pads[g.r.below(pads.len() as u64 - !raw as u64) as usize]); } s };
        let mut fields: Vec<String> = vec![];
        let p0 = pad(self);
        if self.r.chance(60) { fields.push(format!("\"pad\":\"{p0}\"")); }
        if self.big && self.r.chance(30) { let m = self.r.range(20, 200); fields.push((0..m).map(|i| format!("\"k{i}\":{}", ["1", "\"s\"", "[]", "{}", "null", "-2.5"][(i % 6) as usize])).collect::<Vec<_>>().join(",")); }
        if self.big && self.r.chance(20) { let m = self.r.range(5, 90) as usize; fields.push(if self.r.chance(50) { format!("\"deep\":{}1{}", "[".repeat(m), "]".repeat(m)) } else { format!("\"deep\":{}1{}", "{\"model\":".repeat(m), "}".repeat(m)) }); }
        // the same names elsewhere in the document
        if self.r.chance(15) { let d = (*self.r.pick(&["\"x\":{\"model\":\"no\",\"user\":{\"id\":\"no\"},\"id\":\"no\",\"usage\":{\"kind\":\"no\"}}", "\"l\":[{\"model\":\"no\",\"id\":\"no\"},[1,[2.5e3],null,true],\"model\",{}]", "\"model/\":\"no\",\"Model\":\"no\",\"modelx\":1,\"mode\":[]", "\"user/id\":\"no\",\"usage/kind\":\"no\"", "\"id2\":-1.5E-3,\"usage2\":{\"kind\":{}}"])); let ws = *self.r.pick(&["", "\n ", "\r\n\t", "\t"]); fields.push(d.replace([','], &format!("{ws},{ws}")).replace('{', &format!("{{{ws}"))); }
        if req {
            let m = match self.r.below(8) { 0 => format!("\"modèle-{n}\""), _ => self.json_str(&format!("model-{n}"), raw) };
            let max = match self.r.below(14) { 0 => format!("-{}", n + 1), 1 => format!("{n}.25"), 2 => format!("{n}e2"), 3 => format!("{}", u64::MAX - n as u64), 4 => (*self.r.pick(&["true", "false", "null"])).into(), 5 => format!("\"{n}\""), 6 if self.r.chance(20) => (*self.r.pick(&["{}", "[]", "[7]"])).into(), _ => format!("{}", 7000 + n) };
            let uid = self.json_str(&format!("uid-{n}"), raw);
            let on = if self.r.chance(50) { "\"on\"" } else { "\"off\"" };
            let sp = if self.r.chance(10) { "\n\t " } else { "" };
            let mut f = vec![format!("\"model\"{sp}:{sp}{m}{sp}"), format!("\"user\":{sp}{{\"name\":\"nm{n}\",\"id\":{uid}}}"), format!("\"opts\":{{\"max\":{sp}{max}{sp}}}"), format!("\"stream\":{}", if self.r.chance(6) { "true" } else { on })];
            if self.r.chance(25) { let (x, y) = (self.json_str(&format!("role-{n}"), raw), self.json_str(&format!("slash-{n}"), raw)); f.push(format!("\"msgs\":[{{\"role\":\"first\"}},{{\"text\":[1],\"role\":{x}}}],\"a/b~c\":{y}")); }
            if self.r.chance(15) { let k = self.r.below(f.len() as u64) as usize; f.remove(k); }
            for i in (1..f.len()).rev() { let j = self.r.below(i as u64 + 1) as usize; f.swap(i, j); }
            fields.extend(f);
        } else {
            let (i, k) = (self.json_str(&format!("rid-{n}"), raw), self.json_str(&format!("kd-{n}"), raw));
            let mut f = vec![format!("\"id\":{i}"), format!("\"usage\":{{\"kind\":{k},\"total_tokens\":{}}}", match self.r.below(12) { 0 => (1u64 << 53) + 1 + 2 * n as u64, 1 => u64::MAX - 2 * n as u64 - self.r.below(50) * 2, 2 => i64::MAX as u64 - 1 - n as u64, _ => 100 + self.r.below(9000) })];
            if self.r.chance(12) { let k = self.r.below(f.len() as u64) as usize; f.remove(k); }
            fields.extend(f);
        }
        let p1 = pad(self);
        if self.r.chance(60) { fields.push(format!("\"tail\":\"{p1}\"")); }
        let sp = match self.r.below(20) { 0..=4 => " ", 5 | 6 => "\n  ", 7 => "\r\n\t", _ => "" };
        format!("{{{sp}{}{sp}}}", fields.join(&format!(",{sp}")))
    }
    fn gap(&mut self) -> u64 { if self.r.chance(30) { self.r.range(10, 50) } else { self.r.below(12) } }
    fn splits(&mut self, bytes: &[u8]) -> Vec<usize> {
        let len = bytes.len();
        if len < 2 { return vec![] }
        // frames of one size
        if len > 300 && self.r.chance(60) { let f = *self.r.pick(&[16_384usize, 16_384, 4_096, 1_400, 1_000, 257]); let f = f.max(len / 60); return (1..).map(|i| i * f).take_while(|&i| i < len).collect(); }
        // within an escape
        if bytes.contains(&b'\\') && self.r.chance(12) { let v: Vec<usize> = (0..len - 1).filter(|&i| bytes[i] == b'\\').map(|i| i + 1).collect(); if !v.is_empty() { return if self.r.chance(50) { vec![*self.r.pick(&v)] } else { v.into_iter().take(40).collect() } } }
        // every byte of one kind on its own
        if self.r.chance(8) {
            let b = *self.r.pick(b"  \"\\\\:,{}[]u\r\n\n\xc3\xe6\xf0\xb1");
            let v: std::collections::BTreeSet<usize> = (0..len).filter(|&i| bytes[i] == b).take(60).flat_map(|i| [i, i + 1]).filter(|&i| i > 0 && i < len).collect();
            return v.into_iter().collect();
        }
        // a stretch of single bytes
        if self.r.chance(10) { let a = self.r.below(len as u64 - 1) as usize; return (a + 1..len.min(a + 1 + self.r.range(10, 60) as usize)).collect(); }
        let n = match self.r.below(6) { 0 | 1 => 0, 2 => 1, 3 => 2, 4 => self.r.range(2, 6), _ => self.r.range(4, 16) };
        let mut v: Vec<usize> = (0..n).map(|_| 1 + self.r.below(len as u64 - 1) as usize).collect();
        v.sort_unstable();
        v.dedup();
        v
    }
    fn sse(&mut self, n: u32) -> String {
        let mut s = String::new();
        let k = if self.big && self.r.chance(50) { self.r.range(10, 120) } else { self.r.below(4) };
        // how this server writes its lines
        let eol = *self.r.pick(&["\n", "\n", "\n", "\r\n", "\r\n", "\r"]);
        let sp = if self.r.chance(75) { " " } else { "" };
        if self.r.chance(8) { s.push('\u{feff}'); }
        let extra = |g: &mut Self, s: &mut String| while g.r.chance(12) { s.push_str(*g.r.pick(&[": keep-alive", ":", "id: 7", "retry: 100", "retry: soon", "nothing", "dat: {}", "datax: 1", "event: data"])); s.push_str(eol); };
        for i in 0..k {
            extra(self, &mut s);
            if self.r.chance(20) { s.push_str(&format!("event: delta{eol}")); }
            let w = *self.r.pick(&["hey", "où", "東京", "🦀", "bad \u{f7f0}\u{f79f}", "\u{f7c3}", "\\n"]);
            s.push_str(&format!("data:{sp}{{\"delta\":\"{w}{i}\"}}{eol}"));
            extra(self, &mut s);
            s.push_str(eol);
            if self.r.chance(8) { s.push_str(*self.r.pick(&[": ping", "event: ping", ""])); s.push_str(eol); s.push_str(eol); }
        }
        extra(self, &mut s);
        let j = self.json_text(n, false, true);
        // lines of a document are lines of the event
        let j = if self.r.chance(80) { j.replace("\r\n", "\n").replace('\n', &format!("\ndata:{sp}")) } else { j };
        // one event's data may take more than one line
        let j = if self.r.chance(15) { j.replacen(":{", &format!(":{{{eol}data:{sp}"), 1) } else { j };
        s.push_str(&format!("data:{sp}{}{eol}", if eol == "\n" { j } else { j.replace('\n', eol) }));
        extra(self, &mut s);
        s.push_str(eol);
        extra(self, &mut s);
        s.push_str(&format!("data:{sp}[DONE]{eol}{eol}"));
        match self.r.below(50) { 0 | 1 => s.truncate(s.len() - eol.len()), 2 => s.truncate(s.len() - 1), 3 => s.push_str(": bye"), 4 => { s.push_str("data: more"); s.push_str(eol) } _ => {} }
        s
    }

    fn stream(&mut self, id: u32, at: u64, cfgs: &[(Cfg, BTreeMap<String, bool>)], t_active: usize) -> Stream {
        let host = (*self.r.pick(&["a.example.com", "b.example.com", "x.example.com", "y.a.example.com", "other.test", "nowhere.test", "a.example.com:8080", "A.Example.com", "a.example.com:443", "b.example.com:3000", "y.a.example.com:10443"])).to_string();
        let method = if self.r.chance(50) { "GET" } else { "POST" };
        let mut headers = vec![("x-sid".to_string(), format!("sid-{id}")), ("x-plan".to_string(), (*self.r.pick(&["gold", "gold", "free"])).to_string())];
        if self.r.chance(20) { headers.push(("x-h0".into(), "in0".into())); }
        if self.r.chance(8) { headers.push(("x-h0".into(), "in0b".into())); }
        if self.r.chance(8) { headers.push(("x-svc-0".into(), "forged".into())); }
        let grpc = self.r.chance(self.p.grpc * 3);
        // a value that is not UTF-8
        if self.r.chance(10) { headers.push(((*self.r.pick(&["x-raw", "x-raw", "x-h0"])).into(), (*self.r.pick(&["caf\u{f7e9}", "\u{f7ff}\u{f7fe}", "a\u{f7c3}", "\u{f7f0}\u{f79f}\u{f798}b"])).into())); }
        // values that differ and look the same as text
        if self.r.chance(5) { for (k, v) in [("x-raw", "\u{f7fd}x"), ("x-raw2", "\u{f7fb}x")] { headers.push((k.into(), v.into())); } }
        if self.r.chance(4) { for v in ["\u{f7fd}x", "\u{f7fc}x"] { headers.push(("x-raw".into(), v.into())); } }
        if grpc || self.r.chance(15) { headers.push(("content-type".into(), (*self.r.pick(&["application/grpc", "application/grpc+proto", "application/json"])).into())); }
        if self.r.chance(30) { headers.push(("x-request-id".into(), match self.r.below(12) { 0 => format!("it's {id}"), 4 => format!("caf\u{f7e9} {id}"), 1 => format!("a\\b\\{id}"), 2 => format!("\"q\" {id}"), 3 => format!("']] + [['x-inj', '{id}"), _ => { let l = self.long(40); format!("rid-in-{id}-{}{l}", self.r.below(100)) } })); }
        if self.r.chance(if self.p.trace > 20 { 50 } else { 15 }) { 
            let (tr, sp) = ((id as u128 + 1) << 64 | self.r.next() as u128, self.r.next() | 1);
            let v = match self.r.below(30) { 0 => String::new(), 1 => format!("00-{:032x}-{sp:016x}-01", 0), 2 => format!("00-{tr:032x}-{:016x}-01", 0), 3 => format!("ff-{tr:032x}-{sp:016x}-01"), 4 => format!("00-{tr:x}-{sp:016x}"), 5..=8 => format!("00-{tr:032x}-{sp:016x}-00"), _ => format!("00-{tr:032x}-{sp:016x}-01") };
            headers.push(("traceparent".into(), v));
            if self.r.chance(30) { headers.push(("tracestate".into(), format!("{}s{id}=t{id}", if self.big && self.r.chance(60) { { let n = self.r.range(2, 20); (0..n).map(|i| format!("vendor{i}={:016x},", self.r.next())) }.collect::<String>() } else if self.r.chance(50) { "rojo=00f067aa0ba902b7,".into() } else { String::new() }))); }
        }
        if self.r.chance(12) { headers.push(("baggage".into(), format!("sid=b{id}{}", if self.big && self.r.chance(70) { (0..self.r.range(2, 40)).map(|i| format!(",key{i}=val{id}{i}")).collect::<String>() } else { String::new() }))); }
        if self.big && self.r.chance(40) { for i in 0..self.r.range(5, 80) { let at = self.r.below(headers.len() as u64 + 1) as usize; let l = self.long(4); headers.insert(at, (format!("x-fill-{i}"), format!("f{i}{l}"))); } }
        let mut s = Stream {
            id, at, host, method: method.into(), path: if grpc && self.r.chance(80) { "/pkg.Svc/Get" } else { *self.r.pick(&["/", "/", "/deny", "/api?x=1", "/api?x=1", "/pkg.Svc/Get", "/pkg.Svc/a/b"]) }.into(), headers, body: None, splits: vec![], gap: self.gap(), bare_eos: false, trailers: false, v6: self.r.chance(25),
            upstream: Upstream { early: false, delay: self.r.range(0, 30), headers: vec![("content-type".into(), "application/json".into()), ("x-up".into(), format!("up{id}"))], body: String::new(), splits: vec![], gap: self.gap(), bare_eos: false, trailers: false },
            svc: BTreeMap::new(), disconnect: None, faults: vec![],
        };
        if self.r.chance(self.p.req_body) {
            let mut b = self.json_text(id, true, true);
            match self.r.below(32) { 0 => b = "not json at all".into(), 1 => b = String::new(), 2 => b = "{\"mod".into(), _ => {} }
            s.splits = self.splits(&to_wire(&b));
            s.body = Some(b);
            s.bare_eos = self.r.chance(25);
        }
        if self.r.chance(self.p.trailers) { s.trailers = true; }
        // upstream
        let sse = self.r.chance(self.p.sse);
        s.upstream.body = match self.r.below(12) { 0 => String::new(), 1 if !sse => "hello world".into(), _ => if sse { self.sse(id) } else { self.json_text(id, false, false) } };
        if self.r.chance(8) { s.upstream.headers.push(("x-svc-1".into(), "own".into())); }
        if self.r.chance(6) { for (k, v) in [("x-raw", "\u{f7fd}u"), ("x-raw2", "\u{f7fb}u")] { s.upstream.headers.push((k.into(), v.into())); } }
        if self.r.chance(10) { s.upstream.headers.push(((*self.r.pick(&["x-raw", "x-raw", "x-up"])).into(), "na\u{f7ef}ve".into())); }
        if self.r.chance(4) && !cfgs.iter().any(|(c, _)| ["prop:request.path", "prop:request.query", "prop:request.url_path"].iter().any(|f| order_matters(c, f))) { s.path = (*self.r.pick(&["/caf\u{f7e9}", "/api?q=\u{f7ff}"])).into(); }
        if sse { s.upstream.headers[0].1 = (*self.r.pick(&["text/event-stream", "text/event-stream", "text/event-stream; charset=utf-8", "text/event-stream; charset=utf-8", "Text/Event-Stream; charset=UTF-8"])).into(); }
        s.upstream.splits = self.splits(&to_wire(&s.upstream.body));
        s.upstream.bare_eos = self.r.chance(20);
        s.upstream.trailers = self.r.chance(self.p.trailers);
        if self.big && s.path.is_ascii() && self.r.chance(30) { let l = self.long(100); s.path.push_str(&format!("{}q={l}", if s.path.contains('?') { "&" } else { "?" })); }
        if self.big && self.r.chance(30) { for i in 0..self.r.range(5, 60) { s.upstream.headers.push((format!("x-fill-{i}"), format!("u{i}"))); } }
        if s.splits.len() > 30 { s.gap = s.gap.min(3); }
        if s.upstream.splits.len() > 30 { s.upstream.gap = s.upstream.gap.min(3); }
        // early answers, above all where nothing could still have to end the request
        let order: Vec<usize> = std::iter::once(t_active).chain(0..cfgs.len()).collect();
        let all_early = cfgs.iter().all(|(c, e)| match select(c, &s) { Sel::Set(x) => e.get(&x.name).copied().unwrap_or(true), _ => true });
        let odds = if s.body.is_some() && self.p.body_ptr > 50 { 60 } else { self.p.early };
        if self.r.chance(if all_early { odds } else { odds / 4 }) { s.upstream.early = true; }
        // services
        let mut done = false;
        for ci in order {
            if done { break }
            let (c, _) = &cfgs[ci];
            if let Sel::Set(set) = select(c, &s) {
                let acts = set.acts.clone();
                for (i, a) in acts.iter().enumerate() {
                    match a {
                        Act::T(t) => self.behs(&i.to_string(), t, &mut s, c),
                        Act::L(l) => {
                            let k = c.svcs.iter().find(|x| x.name == l.svc).unwrap();
                            let b = self.beh(k, id, &i.to_string());
                            s.svc.insert(i.to_string(), b);
                        }
                    }
                }
                done = !acts.is_empty();
            }
        }
        if self.r.chance(30) {
            let out = match self.r.below(4) { 0 => Out::Status(14), 1 => Out::Lost, 2 => Out::DispatchFail, _ => Out::Ok { code: 0, tag: String::new(), hdrs: vec![] } };
            s.svc.insert("export".into(), Beh { latency: self.r.range(1, 30), out });
        }
        if self.r.chance(self.p.disconnect) { s.disconnect = Some(self.r.below(200)); }
        if self.r.chance(self.p.host_fault) {
            let f = *self.r.pick(&["prop:source.address", "prop:request.path", "prop:request.method", "prop:request.host", "set_map_request", "set_map_response", "set_property", "dispatch_grpc_call", "get_log_level", "increment_metric"]);
            if !cfgs.iter().any(|(c, _)| order_matters(c, f)) { s.faults.push(f.into()); }
        }
        // one call of a kind refused
        while self.r.chance(self.p.nth) && s.faults.len() < 4 {
            let site = *self.r.pick(self.p.sites);
            let f = format!("{site}@{}", match self.r.below(4) { 0 | 1 => 1, 2 => 2, _ => self.r.range(3, 5) });
            if !s.faults.contains(&f) { s.faults.push(f); }
        }
        s
    }
    fn behs(&mut self, id: &str, t: &Typed, s: &mut Stream, c: &Cfg) {
        if let Op::Grpc { svc, on_reply, .. } = &t.op {
            let k = c.svcs.iter().find(|x| &x.name == svc).unwrap().clone();
            let b = self.beh(&k, s.id, id);
            s.svc.insert(id.to_string(), b);
            for (i, ch) in on_reply.iter().enumerate() { self.behs(&format!("{id}.{i}"), ch, s, c); }
        }
    }
    fn beh(&mut self, k: &Svc, sid: u32, act: &str) -> Beh {
        let latency = if self.r.chance(self.p.slow) { self.r.range(k.timeout_ms.saturating_sub(2), k.timeout_ms + 20) } else { match self.r.below(4) { 0 => 0, 1 => self.r.range(1, 3), _ => self.r.range(1, 60) } };
        let out = if self.r.chance(self.p.fail_out) {
            match self.r.below(6) { 0 => Out::Status(*self.r.pick(&[2u32, 13, 14, 16])), 1 => Out::Status(14), 2 => Out::Garbage, 3 => Out::Empty, 4 => Out::Lost, _ => Out::DispatchFail }
        } else {
            let tag = match self.r.below(4) { 0 => format!("t{sid}-{act}"), 1 => "gold".into(), _ => { let l = self.long(40); format!("tag{sid}x{act}{l}") } };
            let mut hdrs = vec![];
            for i in 0..if self.big && self.r.chance(40) { self.r.range(3, 16) } else { self.r.below(3) } { let k = self.spell(&format!("x-svc-{i}")); hdrs.push((k, format!("{sid}-{act}-{i}"))); }
            let code = match k.kind {
                SvcKind::Dynamic => *self.r.pick(&[1i64, 1, 1, 0, 2, 7]),
                SvcKind::Auth => *self.r.pick(&[0i64, 0, 0, 0, 1, 2, 3, 401, 403]),
                _ => *self.r.pick(&[1i64, 1, 1, 1, 2, 0, 9]),
            };
            Out::Ok { code, tag, hdrs }
        };
        Beh { latency, out }
    }
}

fn calm(t: &mut Typed, svc: &str, svcs: &[Svc]) {
    t.terminal = false;
    match &mut t.op {
        Op::Deny { .. } => t.op = Op::Fail,
        Op::Grpc { svc: s, on_reply, .. } => {
            if svcs.iter().any(|k| k.name == *s && k.deny) { *s = svc.to_string(); }
            for c in on_reply.iter_mut() { calm(c, svc, svcs); }
        }
        _ => {}
    }
}
fn deny_free(svcs: &[Svc], t: &Typed) -> bool { match &t.op { Op::Grpc { svc, .. } => svcs.iter().any(|s| &s.name == svc && !s.deny), _ => true } }

pub fn generate(profile: &str, seed: u64) -> Plan {
    let p = prof(profile);
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in profile.bytes() { h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3); }
    let mut g = G { r: Rng::new(mix(seed, h)), p: &p, stores: vec![], nvar: 0, allvars: vec![], topvars: vec![], at: 0, referenced: vec![], nstore: 0, seen_nonguard: false, seen_resp_hdr: false, seen_late: false, fence_late: false, may_early: true, reqptrs: vec![], rb: false, big: false };
    g.big = g.r.chance(p.big);
    let ncfg = if p.cfgs > 1 { g.r.range(1, p.cfgs) } else { 1 };
    let mut cfgs = vec![];
    let mut at = 0;
    for v in 0..ncfg {
        cfgs.push(g.cfg(v, at));
        at += g.r.range(1, (p.spread / ncfg.max(1)).max(2));
    }
    let n = g.r.range(p.streams.0, p.streams.1);
    let t0 = if p.early_streams { 0 } else { 50 };
    let mut streams = vec![];
    for i in 0..n {
        let at = t0 + if n == 1 { g.r.below(5) } else { g.r.below(p.spread) };
        let act = cfgs.iter().rposition(|(c, _)| c.at <= at && c.bad == Bad::No).unwrap_or(0);
        let s = g.stream(i as u32, at, &cfgs, act);
        streams.push(s);
    }
    let mut desc = vec![];
    if g.r.chance(p.desc_fault) {
        let lasting = g.r.chance(if g.big { 50 } else { 8 });
        for _ in 0..if lasting { g.r.range(6, 25) } else { g.r.range(1, 6) } {
            let out = match g.r.below(10) {
                0 => DescOut::Ok, 8 => DescOut::Lacking(g.r.below(6) as u32), 1 => DescOut::Partial(g.r.below(3) as u32), 2 => DescOut::Corrupt(g.r.below(3) as u32), 3 => DescOut::Status(14), 4 => DescOut::Garbage, 5 => DescOut::Empty, 6 => DescOut::Lost, 7 => DescOut::DispatchFail, _ => DescOut::Foreign,
            };
            desc.push(DescBeh { latency: if g.r.chance(20) { g.r.range(900, 6000) } else { g.r.range(1, 40) }, out });
        }
    }
    let mut transient = vec![];
    if p.transient > 0 && g.r.chance(p.transient) {
        for _ in 0..g.r.range(1, 4) {
            let site = *g.r.pick(&["get_buffer", "get_map", "set_map", "get_map_value", "get_property", "set_property", "dispatch_grpc_call", "increment_metric", "get_log_level"]);
            transient.push((site.to_string(), g.r.range(1, 30)));
        }
    }
    let tick_fail = if p.chaos && g.r.chance(10) { 1 } else { 0 };
    let log_level = if g.r.chance(70) { 2 } else { g.r.below(5) as u32 };
    Plan { seed: mix(seed, 77), profile: profile.into(), exact: !p.chaos, log_level, cfgs: cfgs.into_iter().map(|(c, _)| c).collect(), streams, desc, transient, tick_fail, horizon: 10_000 }
}

/// An expression that reads an attribute the host refuses and a value still to come fails now or waits, depending on
/// the iteration order of a hash map in the code under test; both are right, so such combinations are left out.
fn order_matters(c: &Cfg, fault: &str) -> bool {
    let Some(attr) = fault.strip_prefix("prop:") else { return false };
    let mixed = |g: &[&Expr]| {
        let (mut hit, mut stored) = (false, false);
        for e in g { e.walk(&mut |x| match x { Expr::Attr(a) if attr_source(a) == attr => hit = true, Expr::Stored(_) => stored = true, _ => {} }) }
        hit && stored
    };
    fn leaves<'a>(p: &'a Pred, out: &mut Vec<&'a Expr>) { p.walk(&mut |e| out.push(e)) }
    fn typed(t: &Typed, mixed: &dyn Fn(&[&Expr]) -> bool) -> bool {
        let mut g = vec![];
        leaves(&t.pred, &mut g);
        if mixed(&g) { return true }
        g.clear();
        match &t.op {
            Op::Grpc { a, b, on_reply, .. } => { g.extend([a, b]); if on_reply.iter().any(|t| typed(t, mixed)) { return true } }
            Op::Deny { headers, body, .. } => { g.push(body); g.extend(headers.iter().map(|(_, e)| e)); }
            Op::Headers { items, .. } => g.extend(items.iter().map(|(_, e)| e)),
            Op::Store { value, .. } => g.push(value),
            Op::Fail => {}
        }
        mixed(&g)
    }
    c.sets.iter().flat_map(|s| &s.acts).any(|a| match a {
        Act::T(t) => typed(t, &mixed),
        Act::L(l) => {
            let mut g: Vec<&Expr> = c.request_data.iter().map(|(_, e)| e).chain(&l.hits).chain(&l.domain).collect();
            for p in &l.preds { leaves(p, &mut g) }
            for k in &l.cond { for p in &k.preds { leaves(p, &mut g) } g.extend(k.data.iter().map(|(_, e)| e)); }
            mixed(&g)
        }
    })
}
