//! Wire formats the simulated services speak. Written from the .proto files, independent of the code under test.
use prost::Message;
use prost_types::{EnumDescriptorProto, EnumValueDescriptorProto, MessageOptions, OneofDescriptorProto, FileDescriptorProto, FileDescriptorSet, DescriptorProto, FieldDescriptorProto, ServiceDescriptorProto, MethodDescriptorProto};
use std::collections::BTreeMap;

#[derive(Clone, PartialEq, Message)]
pub struct DynReq {
    #[prost(string, tag = "1")] pub act: String,
    #[prost(string, tag = "2")] pub sid: String,
    #[prost(string, tag = "3")] pub a: String,
    #[prost(string, tag = "4")] pub b: String,
    #[prost(int64, tag = "5")] pub n: i64,
    #[prost(int32, tag = "6")] pub i: i32,
    #[prost(uint32, tag = "7")] pub u: u32,
    #[prost(uint64, tag = "8")] pub ul: u64,
    #[prost(bool, tag = "9")] pub f: bool,
    #[prost(double, tag = "10")] pub d: f64,
    #[prost(float, tag = "11")] pub fl: f32,
    /// an enum of ZERO, ONE and TWO
    #[prost(int32, tag = "12")] pub e: i32,
    #[prost(message, optional, boxed, tag = "13")] pub sub: Option<Box<Sub>>,
    #[prost(string, repeated, tag = "14")] pub rs: Vec<String>,
    #[prost(int64, repeated, tag = "15")] pub ri: Vec<i64>,
    #[prost(btree_map = "string, string", tag = "16")] pub mp: BTreeMap<String, String>,
    #[prost(bytes = "vec", tag = "17")] pub by: Vec<u8>,
    #[prost(message, optional, tag = "18")] pub ts: Option<prost_types::Timestamp>,
    #[prost(message, repeated, tag = "19")] pub subs: Vec<Sub>,
    #[prost(string, optional, tag = "20")] pub opt: Option<String>,
    #[prost(sint32, tag = "21")] pub si: i32,
    #[prost(btree_map = "int32, message", tag = "22")] pub im: BTreeMap<i32, Sub>,
}
/// Numbers its fields differently from `DynReq`, and may hold itself.
#[derive(Clone, PartialEq, Message)]
pub struct Sub {
    #[prost(string, tag = "1")] pub k: String,
    #[prost(int64, tag = "2")] pub n: i64,
    #[prost(message, optional, boxed, tag = "3")] pub sub: Option<Box<Sub>>,
}
#[derive(Clone, PartialEq, Message)]
pub struct DynRep {
    #[prost(string, tag = "1")] pub tag: String,
    #[prost(int64, tag = "2")] pub code: i64,
    #[prost(message, optional, tag = "3")] pub sub: Option<Sub>,
    #[prost(string, repeated, tag = "4")] pub rs: Vec<String>,
    #[prost(btree_map = "string, string", tag = "5")] pub mp: BTreeMap<String, String>,
    #[prost(message, optional, tag = "6")] pub st: Option<prost_types::Struct>,
    #[prost(message, optional, tag = "7")] pub ts: Option<prost_types::Timestamp>,
    #[prost(uint32, tag = "8")] pub u: u32,
    #[prost(bool, tag = "9")] pub f: bool,
    #[prost(double, tag = "10")] pub d: f64,
    #[prost(int32, tag = "11")] pub e: i32,
    #[prost(bytes = "vec", tag = "12")] pub by: Vec<u8>,
    #[prost(string, optional, tag = "13")] pub opt: Option<String>,
    /// never set
    #[prost(int64, tag = "14")] pub z: i64,
    #[prost(message, optional, tag = "15")] pub none: Option<Sub>,
    #[prost(message, optional, tag = "16")] pub val: Option<prost_types::Value>,
    #[prost(message, repeated, tag = "17")] pub subs: Vec<Sub>,
    #[prost(sint64, tag = "18")] pub sl: i64,
    #[prost(message, repeated, tag = "19")] pub hk: Vec<Kv>,
    #[prost(message, repeated, tag = "20")] pub ho: Vec<HOpt>,
}
/// What a service answers, all of it following from tag and code.
pub fn dyn_rep(tag: &str, code: i64) -> DynRep {
    let sv = |s: &str| prost_types::Value { kind: Some(prost_types::value::Kind::StringValue(s.into())) };
    // values that are the default of their type are values too
    let sub = |k: &str| Sub { k: if code == 7 { String::new() } else { format!("{tag}{k}") }, n: if code == 1 { 0 } else { -code - 5 }, sub: None };
    DynRep {
        tag: tag.into(), code, sub: Some(sub("+")), rs: vec!["r0".into(), format!("{tag}~")], mp: [("k".to_string(), format!("{tag}=")), ("l".to_string(), String::new())].into_iter().collect(),
        st: Some(prost_types::Struct { fields: [("k".to_string(), sv(&format!("{tag}:"))), ("m".to_string(), prost_types::Value { kind: Some(prost_types::value::Kind::StructValue(prost_types::Struct { fields: [("x".to_string(), prost_types::Value { kind: Some(prost_types::value::Kind::ListValue(prost_types::ListValue { values: vec![sv("l0"), sv(&format!("{tag}!"))] })) })].into_iter().collect() })) })].into_iter().collect() }),
        ts: Some(prost_types::Timestamp { seconds: 1_600_000_000 + code, nanos: 250_000_000 }), u: 4_000_000_000u32.wrapping_add(code as u32), f: code % 2 == 1, d: 0.5 + code as f64, e: (code % 3) as i32, by: tag.as_bytes().to_vec(),
        opt: if code % 2 == 0 { None } else { Some(String::new()) }, z: 0, none: None, val: Some(sv(&format!("{tag}?"))), subs: vec![sub("s0"), sub("s1")], sl: -code - 9, hk: vec![], ho: vec![],
    }
}
/// Text an expression makes of a reply, and the expression.
pub const REP_TEXTS: usize = 20;
pub fn rep_text(k: usize, v: &str, tag: &str, code: i64) -> (String, String) {
    let r = dyn_rep(tag, code);
    let yn = |b: bool| if b { "y" } else { "n" }.to_string();
    match k {
        0 => (format!("{v}.sub.k"), r.sub.unwrap().k),
        1 => (format!("string({v}.sub.n)"), r.sub.unwrap().n.to_string()),
        2 => (format!("{v}.rs[1]"), r.rs[1].clone()),
        3 => (format!("{v}.mp['k']"), r.mp["k"].clone()),
        4 => (format!("{v}.mp.l"), String::new()),
        5 => (format!("{v}.st.k"), format!("{tag}:")),
        6 => (format!("{v}.st.m.x[1]"), format!("{tag}!")),
        7 => (format!("({v}.ts == timestamp('2020-09-13T12:26:40.250Z') ? 'y' : 'n')"), yn(code == 0)),
        8 => (format!("string({v}.u)"), r.u.to_string()),
        9 => (format!("({v}.f ? 'y' : 'n')"), yn(r.f)),
        10 => (format!("string({v}.d)"), r.d.to_string()),
        11 => (format!("string({v}.e)"), r.e.to_string()),
        12 => (format!("string({v}.by)"), tag.to_string()),
        13 => (format!("(has({v}.opt) ? 'y' : 'n')"), yn(r.opt.is_some())),
        14 => (format!("string({v}.z)"), "0".into()),
        15 => (format!("(has({v}.none) ? 'y' : 'n')"), "n".into()),
        16 => (format!("{v}.val"), format!("{tag}?")),
        17 => (format!("{v}.subs[1].k"), r.subs[1].k.clone()),
        18 => (format!("({v}.rs.exists(x, x == 'r0') && size({v}.subs) == 2 ? 'y' : 'n')"), "y".into()),
        _ => (format!("string({v}.sl)"), r.sl.to_string()),
    }
}
#[derive(Clone, PartialEq, Message)]
pub struct Kv {
    #[prost(string, tag = "1")] pub key: String,
    #[prost(string, tag = "2")] pub value: String,
}
#[derive(Clone, PartialEq, Message)]
pub struct RlDescriptor { #[prost(message, repeated, tag = "1")] pub entries: Vec<Kv> }
#[derive(Clone, PartialEq, Message)]
pub struct RlReq {
    #[prost(string, tag = "1")] pub domain: String,
    #[prost(message, repeated, tag = "2")] pub descriptors: Vec<RlDescriptor>,
    #[prost(uint32, tag = "3")] pub hits: u32,
}
#[derive(Clone, PartialEq, Message)]
pub struct RlRep {
    #[prost(int32, tag = "1")] pub code: i32,
    #[prost(message, repeated, tag = "3")] pub headers: Vec<Kv>,
}
#[derive(Clone, PartialEq, Message)]
pub struct HOpt { #[prost(message, optional, tag = "1")] pub header: Option<Kv> }
#[derive(Clone, PartialEq, Message)]
pub struct HStatus { #[prost(int32, tag = "1")] pub code: i32 }
#[derive(Clone, PartialEq, Message)]
pub struct Denied {
    #[prost(message, optional, tag = "1")] pub status: Option<HStatus>,
    #[prost(message, repeated, tag = "2")] pub headers: Vec<HOpt>,
    #[prost(string, tag = "3")] pub body: String,
}
#[derive(Clone, PartialEq, Message)]
pub struct OkResp {
    #[prost(message, repeated, tag = "2")] pub headers: Vec<HOpt>,
    #[prost(string, repeated, tag = "5")] pub remove: Vec<String>,
    #[prost(message, repeated, tag = "6")] pub resp_add: Vec<HOpt>,
}
#[derive(Clone, PartialEq, Message)]
pub struct AuthRep {
    #[prost(message, optional, tag = "1")] pub status: Option<HStatus>,
    #[prost(message, optional, tag = "2")] pub denied: Option<Denied>,
    #[prost(message, optional, tag = "3")] pub ok: Option<OkResp>,
    #[prost(message, optional, tag = "4")] pub meta: Option<prost_types::Struct>,
}
#[derive(Clone, PartialEq, Message)]
pub struct Sock {
    #[prost(string, tag = "2")] pub address: String,
    #[prost(uint32, tag = "3")] pub port: u32,
}
#[derive(Clone, PartialEq, Message)]
pub struct Addr { #[prost(message, optional, tag = "1")] pub sock: Option<Sock> }
#[derive(Clone, PartialEq, Message)]
pub struct Peer { #[prost(message, optional, tag = "1")] pub address: Option<Addr> }
#[derive(Clone, PartialEq, Message)]
pub struct Http {
    #[prost(string, tag = "2")] pub method: String,
    #[prost(btree_map = "string, string", tag = "3")] pub headers: BTreeMap<String, String>,
    #[prost(string, tag = "4")] pub path: String,
    #[prost(string, tag = "5")] pub host: String,
    #[prost(string, tag = "6")] pub scheme: String,
    #[prost(string, tag = "10")] pub protocol: String,
}
#[derive(Clone, PartialEq, Message)]
pub struct AReq { #[prost(message, optional, tag = "1")] pub time: Option<prost_types::Timestamp>, #[prost(message, optional, tag = "2")] pub http: Option<Http> }
#[derive(Clone, PartialEq, Message)]
pub struct Meta { #[prost(btree_map = "string, message", tag = "1")] pub fields: BTreeMap<String, prost_types::Struct> }
#[derive(Clone, PartialEq, Message)]
pub struct ACtx {
    #[prost(message, optional, tag = "1")] pub source: Option<Peer>,
    #[prost(message, optional, tag = "2")] pub destination: Option<Peer>,
    #[prost(message, optional, tag = "4")] pub request: Option<AReq>,
    #[prost(btree_map = "string, string", tag = "10")] pub ext: BTreeMap<String, String>,
    #[prost(message, optional, tag = "11")] pub meta: Option<Meta>,
}
#[derive(Clone, PartialEq, Message)]
pub struct AuthReq { #[prost(message, optional, tag = "1")] pub attributes: Option<ACtx> }

#[derive(Clone, PartialEq, Message)]
pub struct DescRef { #[prost(string, tag = "1")] pub cluster: String, #[prost(string, tag = "2")] pub service: String }
#[derive(Clone, PartialEq, Message)]
pub struct DescReq { #[prost(message, repeated, tag = "1")] pub services: Vec<DescRef> }
#[derive(Clone, PartialEq, Message)]
pub struct Desc { #[prost(string, tag = "1")] pub cluster: String, #[prost(string, tag = "2")] pub service: String, #[prost(bytes = "vec", tag = "3")] pub fds: Vec<u8> }
#[derive(Clone, PartialEq, Message)]
pub struct DescRep { #[prost(message, repeated, tag = "1")] pub descriptors: Vec<Desc> }

/// Two versions of the dynamic services are about, under the same names: which one answers is a matter of the cluster.
/// The second swaps the numbers of two fields of the request and of two of the reply. Either has the other as its method `Again`.
pub fn second(cluster: &str, method: &str) -> bool { (cluster.starts_with("dyn-1") != cluster.contains("-v")) != (method == "Again") }
impl DynReq {
    pub fn read(cluster: &str, method: &str, b: &[u8]) -> Option<DynReq> {
        let mut r = DynReq::decode(b).ok()?;
        if second(cluster, method) { std::mem::swap(&mut r.a, &mut r.b); }
        Some(r)
    }
}
impl DynRep {
    fn turn(mut self, cluster: &str, method: &str) -> DynRep { if second(cluster, method) { std::mem::swap(&mut self.code, &mut self.z); } self }
    pub fn read(cluster: &str, method: &str, b: &[u8]) -> Option<DynRep> { DynRep::decode(b).ok().map(|r| r.turn(cluster, method)) }
    pub fn bytes(self, cluster: &str, method: &str) -> Vec<u8> { self.turn(cluster, method).encode_to_vec() }
}

/// FileDescriptorSet of a dynamic service `pkg.Name` with `Call(sim.v1.Req) returns (sim.v1.Rep)`.
pub fn descriptor_for(cluster: &str, full: &str) -> Vec<u8> {
    let (pkg, name) = full.rsplit_once('.').unwrap_or(("sim", full));
    let f = |n: &str, num: i32, t: i32| FieldDescriptorProto { name: Some(n.into()), number: Some(num), r#type: Some(t), label: Some(1), json_name: Some(n.into()), ..Default::default() };
    let named = |n: &str, num: i32, t: i32, of: &str| FieldDescriptorProto { type_name: Some(of.into()), ..f(n, num, t) };
    let many = |d: FieldDescriptorProto| FieldDescriptorProto { label: Some(3), ..d };
    let opt = |d: FieldDescriptorProto, o: i32| FieldDescriptorProto { proto3_optional: Some(true), oneof_index: Some(o), ..d };
    let one = |n: &str| vec![OneofDescriptorProto { name: Some(n.into()), ..Default::default() }];
    let entry = |n: &str, k: FieldDescriptorProto, v: FieldDescriptorProto| DescriptorProto { name: Some(n.into()), field: vec![k, v], options: Some(MessageOptions { map_entry: Some(true), ..Default::default() }), ..Default::default() };
    let (sub, ts) = (".sim.v1.Sub", ".google.protobuf.Timestamp");
    let req = |name: &str, method: &str| { let (a, b) = if second(cluster, method) { (4, 3) } else { (3, 4) };
        let (mp, im) = (format!(".sim.v1.{name}.MpEntry"), format!(".sim.v1.{name}.ImEntry"));
        DescriptorProto { name: Some(name.into()), oneof_decl: one("_opt"),
                nested_type: vec![entry("MpEntry", f("key", 1, 9), f("value", 2, 9)), entry("ImEntry", f("key", 1, 5), named("value", 2, 11, sub))],
                field: vec![f("act", 1, 9), f("sid", 2, 9), f("a", a, 9), f("b", b, 9), f("n", 5, 3), f("i", 6, 5), f("u", 7, 13), f("ul", 8, 4), f("f", 9, 8), f("d", 10, 1), f("fl", 11, 2), named("e", 12, 14, ".sim.v1.Kind"),
                    named("sub", 13, 11, sub), many(f("rs", 14, 9)), many(f("ri", 15, 3)), many(named("mp", 16, 11, &mp)), f("by", 17, 12), named("ts", 18, 11, ts), many(named("subs", 19, 11, sub)), opt(f("opt", 20, 9), 0),
                    f("si", 21, 17), many(named("im", 22, 11, &im))], ..Default::default() } };
    let rep = |name: &str, method: &str| { let (code, z) = if second(cluster, method) { (14, 2) } else { (2, 14) };
        let mp = format!(".sim.v1.{name}.MpEntry");
        DescriptorProto { name: Some(name.into()), oneof_decl: one("_opt"), nested_type: vec![entry("MpEntry", f("key", 1, 9), f("value", 2, 9))],
                field: vec![f("tag", 1, 9), f("code", code, 3), named("sub", 3, 11, sub), many(f("rs", 4, 9)), many(named("mp", 5, 11, &mp)), named("st", 6, 11, ".google.protobuf.Struct"), named("ts", 7, 11, ts), f("u", 8, 13), f("f", 9, 8),
                    f("d", 10, 1), named("e", 11, 14, ".sim.v1.Kind"), f("by", 12, 12), opt(f("opt", 13, 9), 0), f("z", z, 3), named("none", 15, 11, sub), named("val", 16, 11, ".google.protobuf.Value"), many(named("subs", 17, 11, sub)), f("sl", 18, 18), many(named("hk", 19, 11, ".sim.v1.Kv")), many(named("ho", 20, 11, ".sim.v1.HOpt"))], ..Default::default() } };
    let types = FileDescriptorProto {
        name: Some("sim/types.proto".into()), package: Some("sim.v1".into()), syntax: Some("proto3".into()), dependency: vec!["google/protobuf/timestamp.proto".into(), "google/protobuf/struct.proto".into()],
        message_type: vec![
            DescriptorProto { name: Some("Kv".into()), field: vec![f("key", 1, 9), f("value", 2, 9)], ..Default::default() },
            DescriptorProto { name: Some("HOpt".into()), field: vec![named("header", 1, 11, ".sim.v1.Kv"), f("append", 2, 8)], ..Default::default() },
            req("Req", "Call"), rep("Rep", "Call"), req("Req2", "Again"), rep("Rep2", "Again"),
            DescriptorProto { name: Some("Sub".into()), field: vec![f("k", 1, 9), f("n", 2, 3), named("sub", 3, 11, sub)], ..Default::default() },
        ],
        enum_type: vec![EnumDescriptorProto { name: Some("Kind".into()), value: ["ZERO", "ONE", "TWO"].iter().enumerate().map(|(i, n)| EnumValueDescriptorProto { name: Some(n.to_string()), number: Some(i as i32), ..Default::default() }).collect(), ..Default::default() }],
        ..Default::default()
    };
    // the methods stand in no particular order, and a neighbour has them the other way round
    let methods = |neighbour: bool| {
        let m = |n: &str, t: &str| MethodDescriptorProto { name: Some(n.into()), input_type: Some(format!(".sim.v1.Req{t}")), output_type: Some(format!(".sim.v1.Rep{t}")), ..Default::default() };
        let odd = MethodDescriptorProto { name: Some("Cal".into()), input_type: Some(".sim.v1.Rep".into()), output_type: Some(".sim.v1.Req".into()), ..Default::default() };
        match (neighbour, second(cluster, "")) { (false, false) => vec![m("Call", ""), m("Again", "2"), odd], (false, true) => vec![odd, m("Again", "2"), m("Call", "")], _ => vec![m("Again", ""), m("Call", "2")] }
    };
    let svc = FileDescriptorProto {
        name: Some("sim/svc.proto".into()), package: Some(pkg.into()), syntax: Some("proto3".into()), dependency: vec!["sim/types.proto".into()],
        service: vec![ServiceDescriptorProto { name: Some(name.into()), method: methods(false), ..Default::default() }, ServiceDescriptorProto { name: Some("Zother".into()), method: methods(true), ..Default::default() }],
        ..Default::default()
    };
    let msg = |n: &str, field: Vec<FieldDescriptorProto>| DescriptorProto { name: Some(n.into()), field, ..Default::default() };
    let of = |d: FieldDescriptorProto| FieldDescriptorProto { oneof_index: Some(0), ..d };
    let wk = |n: &str| FileDescriptorProto { name: Some(format!("google/protobuf/{n}.proto")), package: Some("google.protobuf".into()), syntax: Some("proto3".into()), ..Default::default() };
    let timestamp = FileDescriptorProto { message_type: vec![msg("Timestamp", vec![f("seconds", 1, 3), f("nanos", 2, 5)])], ..wk("timestamp") };
    let st = FileDescriptorProto {
        message_type: vec![
            DescriptorProto { nested_type: vec![entry("FieldsEntry", f("key", 1, 9), named("value", 2, 11, ".google.protobuf.Value"))], ..msg("Struct", vec![many(named("fields", 1, 11, ".google.protobuf.Struct.FieldsEntry"))]) },
            DescriptorProto { oneof_decl: one("kind"), ..msg("Value", vec![of(named("null_value", 1, 14, ".google.protobuf.NullValue")), of(f("number_value", 2, 1)), of(f("string_value", 3, 9)), of(f("bool_value", 4, 8)), of(named("struct_value", 5, 11, ".google.protobuf.Struct")), of(named("list_value", 6, 11, ".google.protobuf.ListValue"))]) },
            msg("ListValue", vec![many(named("values", 1, 11, ".google.protobuf.Value"))]),
        ],
        enum_type: vec![EnumDescriptorProto { name: Some("NullValue".into()), value: vec![EnumValueDescriptorProto { name: Some("NULL_VALUE".into()), number: Some(0), ..Default::default() }], ..Default::default() }],
        ..wk("struct")
    };
    FileDescriptorSet { file: vec![timestamp, st, types, svc] }.encode_to_vec()
}

pub fn struct_of(k: &str, v: &str) -> prost_types::Struct {
    prost_types::Struct { fields: [(k.to_string(), prost_types::Value { kind: Some(prost_types::value::Kind::StringValue(v.into())) })].into_iter().collect() }
}
