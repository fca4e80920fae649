//! The functions a proxy-wasm host provides, with the memory conventions of the ABI, on top of `sim::Host`.
use crate::sim::{try_host, with_host};
use crate::types::*;
use std::convert::TryInto;
use std::time::Duration;

unsafe fn bytes<'a>(p: *const u8, n: usize) -> &'a [u8] { if p.is_null() || n == 0 { &[] } else { std::slice::from_raw_parts(p, n) } }
unsafe fn text<'a>(p: *const u8, n: usize) -> &'a str { std::str::from_utf8(bytes(p, n)).expect("sim: text argument") }
unsafe fn give(v: Option<Vec<u8>>, p: *mut *mut u8, n: *mut usize) {
    match v {
        Some(v) => { let b = v.into_boxed_slice(); *n = b.len(); *p = Box::into_raw(b) as *mut u8; }
        None => { *p = std::ptr::null_mut(); *n = 0; }
    }
}
fn st<T>(r: Result<T, Status>) -> Status { match r { Ok(_) => Status::Ok, Err(s) => s } }
unsafe fn out<T>(r: Result<T, Status>, p: *mut T) -> Status { match r { Ok(v) => { *p = v; Status::Ok } Err(s) => s } }
unsafe fn out_bytes(r: Result<Option<Vec<u8>>, Status>, p: *mut *mut u8, n: *mut usize) -> Status { match r { Ok(v) => { give(v, p, n); Status::Ok } Err(s) => s } }

type Pairs = Vec<(String, Vec<u8>)>;
fn encode(m: &Pairs) -> Vec<u8> {
    let mut b = (m.len() as u32).to_le_bytes().to_vec();
    for (k, v) in m { b.extend((k.len() as u32).to_le_bytes()); b.extend((v.len() as u32).to_le_bytes()); }
    for (k, v) in m { b.extend(k.as_bytes()); b.push(0); b.extend(v); b.push(0); }
    b
}
fn decode(b: &[u8]) -> Pairs {
    if b.is_empty() { return vec![] }
    let int = |i: usize| u32::from_le_bytes(b[i..i + 4].try_into().unwrap()) as usize;
    let n = int(0);
    let mut p = 4 + n * 8;
    let mut m = vec![];
    for i in 0..n {
        let (k, v) = (int(4 + i * 8), int(8 + i * 8));
        m.push((String::from_utf8(b[p..p + k].to_vec()).expect("sim: header name"), b[p + k + 1..p + k + 1 + v].to_vec()));
        p += k + v + 2;
    }
    m
}
/// Path of a property: names with a zero byte between them.
fn path(b: &[u8]) -> Vec<String> { b.split(|c| *c == 0).map(|s| String::from_utf8_lossy(s).into_owned()).collect() }

#[no_mangle] pub unsafe extern "C-unwind" fn proxy_log(level: LogLevel, p: *const u8, n: usize) -> Status { let m = String::from_utf8_lossy(bytes(p, n)).into_owned(); try_host(|h| h.log(level, &m)); Status::Ok }
#[no_mangle] pub unsafe extern "C-unwind" fn proxy_get_log_level(r: *mut LogLevel) -> Status { out(with_host(|h| h.get_log_level()), r) }
#[no_mangle] pub unsafe extern "C-unwind" fn proxy_get_current_time_nanoseconds(r: *mut u64) -> Status { *r = with_host(|h| h.now_ns()); Status::Ok }
#[no_mangle] pub unsafe extern "C-unwind" fn proxy_set_tick_period_milliseconds(ms: u32) -> Status { st(with_host(|h| h.set_tick_period(Duration::from_millis(ms as u64)))) }
#[no_mangle] pub unsafe extern "C-unwind" fn proxy_get_buffer_bytes(t: BufferType, start: usize, max: usize, p: *mut *mut u8, n: *mut usize) -> Status { out_bytes(with_host(|h| h.get_buffer(t, start, max)), p, n) }
#[no_mangle] pub unsafe extern "C-unwind" fn proxy_set_buffer_bytes(t: BufferType, start: usize, size: usize, p: *const u8, n: usize) -> Status { let b = bytes(p, n).to_vec(); st(with_host(|h| h.set_buffer(t, start, size, b))) }
#[no_mangle] pub unsafe extern "C-unwind" fn proxy_get_header_map_pairs(t: MapType, p: *mut *mut u8, n: *mut usize) -> Status { out_bytes(with_host(|h| h.get_map(t)).map(|m| Some(encode(&m))), p, n) }
#[no_mangle] pub unsafe extern "C-unwind" fn proxy_set_header_map_pairs(t: MapType, p: *const u8, n: usize) -> Status { let m = decode(bytes(p, n)); st(with_host(|h| h.set_map(t, m))) }
#[no_mangle] pub unsafe extern "C-unwind" fn proxy_get_header_map_value(t: MapType, k: *const u8, kn: usize, p: *mut *mut u8, n: *mut usize) -> Status { let k = text(k, kn); out_bytes(with_host(|h| h.get_map_value(t, k)), p, n) }
#[no_mangle] pub unsafe extern "C-unwind" fn proxy_remove_header_map_value(t: MapType, k: *const u8, kn: usize) -> Status { edit(t, text(k, kn), |m, k| m.retain(|(x, _)| !x.eq_ignore_ascii_case(k))) }
#[no_mangle] pub unsafe extern "C-unwind" fn proxy_replace_header_map_value(t: MapType, k: *const u8, kn: usize, v: *const u8, vn: usize) -> Status { let v = bytes(v, vn).to_vec(); edit(t, text(k, kn), |m, k| { m.retain(|(x, _)| !x.eq_ignore_ascii_case(k)); m.push((k.to_string(), v.clone())); }) }
#[no_mangle] pub unsafe extern "C-unwind" fn proxy_add_header_map_value(t: MapType, k: *const u8, kn: usize, v: *const u8, vn: usize) -> Status { let v = bytes(v, vn).to_vec(); edit(t, text(k, kn), |m, k| m.push((k.to_string(), v.clone()))) }
fn edit(t: MapType, k: &str, f: impl Fn(&mut Pairs, &str)) -> Status {
    st(with_host(|h| { let mut m = h.get_map(t)?; f(&mut m, k); h.set_map(t, m) }))
}
#[no_mangle] pub unsafe extern "C-unwind" fn proxy_get_property(k: *const u8, kn: usize, p: *mut *mut u8, n: *mut usize) -> Status {
    let k = path(bytes(k, kn));
    match with_host(|h| h.get_property(&k)) { Ok(None) => Status::NotFound, r => out_bytes(r, p, n) }
}
#[no_mangle] pub unsafe extern "C-unwind" fn proxy_set_property(k: *const u8, kn: usize, v: *const u8, vn: usize) -> Status { let k = path(bytes(k, kn)); let v = if v.is_null() { None } else { Some(bytes(v, vn)) }; st(with_host(|h| h.set_property(&k, v))) }
#[no_mangle] pub unsafe extern "C-unwind" fn proxy_continue_stream(t: StreamType) -> Status {
    match t { StreamType::HttpRequest => st(with_host(|h| h.resume_http_request())), StreamType::HttpResponse => st(with_host(|h| h.resume_http_response())), _ => Status::BadArgument }
}
#[no_mangle] pub unsafe extern "C-unwind" fn proxy_send_local_response(code: u32, _d: *const u8, _dn: usize, b: *const u8, bn: usize, m: *const u8, mn: usize, _grpc: i32) -> Status {
    let m = decode(bytes(m, mn)).into_iter().map(|(k, v)| (k, String::from_utf8_lossy(&v).into_owned())).collect();
    let b = if b.is_null() { None } else { Some(bytes(b, bn).to_vec()) };
    st(with_host(|h| h.send_http_response(code, m, b)))
}
#[no_mangle] pub unsafe extern "C-unwind" fn proxy_grpc_call(u: *const u8, un: usize, s: *const u8, sn: usize, m: *const u8, mn: usize, md: *const u8, mdn: usize, b: *const u8, bn: usize, timeout: u32, r: *mut u32) -> Status {
    let (md, b) = (decode(bytes(md, mdn)), bytes(b, bn).to_vec());
    out(with_host(|h| h.dispatch_grpc_call(text(u, un), text(s, sn), text(m, mn), md, b, Duration::from_millis(timeout as u64))), r)
}
#[no_mangle] pub unsafe extern "C-unwind" fn proxy_set_effective_context(id: u32) -> Status { st(with_host(|h| h.set_effective_context(id))) }
#[no_mangle] pub unsafe extern "C-unwind" fn proxy_done() -> Status { Status::Ok }
#[no_mangle] pub unsafe extern "C-unwind" fn proxy_define_metric(t: MetricType, p: *const u8, n: usize, r: *mut u32) -> Status { let k = text(p, n); out(with_host(|h| h.define_metric(t, k)), r) }
#[no_mangle] pub unsafe extern "C-unwind" fn proxy_get_metric(id: u32, r: *mut u64) -> Status { out(with_host(|h| h.get_metric(id)), r) }
#[no_mangle] pub unsafe extern "C-unwind" fn proxy_record_metric(id: u32, v: u64) -> Status { st(with_host(|h| h.record_metric(id, v))) }
#[no_mangle] pub unsafe extern "C-unwind" fn proxy_increment_metric(id: u32, o: i64) -> Status { st(with_host(|h| h.increment_metric(id, o))) }
#[no_mangle] pub unsafe extern "C-unwind" fn proxy_get_status(r: *mut u32, p: *mut *mut u8, n: *mut usize) -> Status { *r = 0; give(Some(vec![]), p, n); Status::Ok }

// Not provided by the simulated host: nothing of the module uses them.
#[no_mangle] pub unsafe extern "C-unwind" fn proxy_get_shared_data(_k: *const u8, _kn: usize, _p: *mut *mut u8, _n: *mut usize, _c: *mut u32) -> Status { Status::NotFound }
#[no_mangle] pub unsafe extern "C-unwind" fn proxy_set_shared_data(_k: *const u8, _kn: usize, _v: *const u8, _vn: usize, _c: u32) -> Status { Status::InternalFailure }
#[no_mangle] pub unsafe extern "C-unwind" fn proxy_register_shared_queue(_k: *const u8, _kn: usize, _r: *mut u32) -> Status { Status::InternalFailure }
#[no_mangle] pub unsafe extern "C-unwind" fn proxy_resolve_shared_queue(_v: *const u8, _vn: usize, _k: *const u8, _kn: usize, _r: *mut u32) -> Status { Status::NotFound }
#[no_mangle] pub unsafe extern "C-unwind" fn proxy_dequeue_shared_queue(_q: u32, _p: *mut *mut u8, _n: *mut usize) -> Status { Status::NotFound }
#[no_mangle] pub unsafe extern "C-unwind" fn proxy_enqueue_shared_queue(_q: u32, _v: *const u8, _n: usize) -> Status { Status::NotFound }
#[no_mangle] pub unsafe extern "C-unwind" fn proxy_close_stream(_t: StreamType) -> Status { Status::InternalFailure }
#[no_mangle] pub unsafe extern "C-unwind" fn proxy_http_call(_u: *const u8, _un: usize, _h: *const u8, _hn: usize, _b: *const u8, _bn: usize, _t: *const u8, _tn: usize, _to: u32, _r: *mut u32) -> Status { Status::InternalFailure }
#[no_mangle] pub unsafe extern "C-unwind" fn proxy_grpc_stream(_u: *const u8, _un: usize, _s: *const u8, _sn: usize, _m: *const u8, _mn: usize, _d: *const u8, _dn: usize, _r: *mut u32) -> Status { Status::InternalFailure }
#[no_mangle] pub unsafe extern "C-unwind" fn proxy_grpc_send(_t: u32, _m: *const u8, _n: usize, _e: bool) -> Status { Status::InternalFailure }
#[no_mangle] pub unsafe extern "C-unwind" fn proxy_grpc_cancel(_t: u32) -> Status { Status::NotFound }
#[no_mangle] pub unsafe extern "C-unwind" fn proxy_grpc_close(_t: u32) -> Status { Status::NotFound }
#[no_mangle] pub unsafe extern "C-unwind" fn proxy_call_foreign_function(_f: *const u8, _fn: usize, _a: *const u8, _an: usize, _p: *mut *mut u8, _n: *mut usize) -> Status { Status::NotFound }
