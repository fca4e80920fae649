//! The seam the simulator owns: the host behind the hostcalls, and Envoy's side of the SDK's entry points.
use crate::dispatcher::*;
use crate::types::*;
use std::cell::RefCell;
use std::rc::Rc;
use std::time::Duration;

/// What the host provides. Maps and buffers are bytes, as they are in Envoy.
pub trait Host {
    fn now_ns(&self) -> u64;
    fn get_log_level(&self) -> Result<LogLevel, Status>;
    fn log(&self, level: LogLevel, message: &str);
    fn set_tick_period(&self, period: Duration) -> Result<(), Status>;
    fn get_buffer(&self, t: BufferType, start: usize, max_size: usize) -> Result<Option<Bytes>, Status>;
    fn set_buffer(&self, _t: BufferType, _start: usize, _size: usize, _value: Vec<u8>) -> Result<(), Status> { Err(Status::InternalFailure) }
    fn get_map(&self, t: MapType) -> Result<Vec<(String, Vec<u8>)>, Status>;
    fn set_map(&self, t: MapType, map: Vec<(String, Vec<u8>)>) -> Result<(), Status>;
    fn get_map_value(&self, t: MapType, key: &str) -> Result<Option<Vec<u8>>, Status>;
    fn get_property(&self, path: &[String]) -> Result<Option<Bytes>, Status>;
    fn set_property(&self, path: &[String], value: Option<&[u8]>) -> Result<(), Status>;
    fn resume_http_request(&self) -> Result<(), Status>;
    fn resume_http_response(&self) -> Result<(), Status>;
    fn send_http_response(&self, status: u32, headers: Vec<(String, String)>, body: Option<Vec<u8>>) -> Result<(), Status>;
    fn dispatch_grpc_call(&self, upstream: &str, service: &str, method: &str, md: Vec<(String, Vec<u8>)>, message: Vec<u8>, timeout: Duration) -> Result<u32, Status>;
    fn define_metric(&self, t: MetricType, name: &str) -> Result<u32, Status>;
    fn increment_metric(&self, id: u32, offset: i64) -> Result<(), Status>;
    fn record_metric(&self, _id: u32, _value: u64) -> Result<(), Status> { Ok(()) }
    fn get_metric(&self, id: u32) -> Result<u64, Status>;
    fn set_effective_context(&self, id: u32) -> Result<(), Status>;
}

thread_local! {
    static HOST: RefCell<Option<Rc<dyn Host>>> = const { RefCell::new(None) };
}

pub fn install_host(h: Option<Rc<dyn Host>>) { HOST.with(|c| *c.borrow_mut() = h); }

pub(crate) fn with_host<R>(f: impl FnOnce(&dyn Host) -> R) -> R {
    let h = HOST.with(|c| c.borrow().clone()).expect("sim: hostcall outside a simulated VM");
    f(&*h)
}

pub(crate) fn try_host(f: impl FnOnce(&dyn Host)) {
    let h = HOST.try_with(|c| c.try_borrow().ok().and_then(|b| b.clone())).ok().flatten();
    if let Some(h) = h { f(&*h) }
}

/// The VM of this thread as Envoy sees it: its contexts, and the entry points it calls, each after making the context
/// it is for the current one.
#[derive(Default)]
pub struct Dispatcher;

fn on(id: u32) { with_host(|h| h.set_effective_context(id)).unwrap(); }

impl Dispatcher {
    pub fn new() -> Self { Self }

    pub fn create_root(&mut self, id: u32) { on(id); proxy_on_context_create(id, 0); }
    pub fn create_http(&mut self, id: u32, root: u32) -> bool { on(id); proxy_on_context_create(id, root); true }
    pub fn on_vm_start(&mut self, root: u32) -> bool { on(root); proxy_on_vm_start(root, 0) }
    pub fn on_configure(&mut self, root: u32, size: usize) -> bool { on(root); proxy_on_configure(root, size) }
    pub fn on_tick(&mut self, root: u32) { on(root); proxy_on_tick(root) }
    pub fn on_request_headers(&mut self, id: u32, n: usize, eos: bool) -> Action { on(id); proxy_on_request_headers(id, n, eos) }
    pub fn on_request_body(&mut self, id: u32, size: usize, eos: bool) -> Action { on(id); proxy_on_request_body(id, size, eos) }
    pub fn on_request_trailers(&mut self, id: u32, n: usize) -> Action { on(id); proxy_on_request_trailers(id, n) }
    pub fn on_response_headers(&mut self, id: u32, n: usize, eos: bool) -> Action { on(id); proxy_on_response_headers(id, n, eos) }
    pub fn on_response_body(&mut self, id: u32, size: usize, eos: bool) -> Action { on(id); proxy_on_response_body(id, size, eos) }
    pub fn on_response_trailers(&mut self, id: u32, n: usize) -> Action { on(id); proxy_on_response_trailers(id, n) }
    /// Delivered on the context that made the call.
    pub fn on_grpc_receive(&mut self, ctx: u32, token: u32, size: usize) { on(ctx); proxy_on_grpc_receive(ctx, token, size) }
    pub fn on_grpc_close(&mut self, ctx: u32, token: u32, status: u32) { on(ctx); proxy_on_grpc_close(ctx, token, status) }
    pub fn on_done(&mut self, id: u32) { on(id); proxy_on_done(id); on(id); proxy_on_log(id); }
    pub fn delete(&mut self, id: u32) { proxy_on_delete(id); }
    /// The end of the VM.
    pub fn end(self) { drop_contexts(); }
    /// The VM trapped: nothing of it runs again, destructors included.
    pub fn abandon(self) { forget_contexts(); }
}
