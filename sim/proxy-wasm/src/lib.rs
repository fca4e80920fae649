//! proxy-wasm-rust-sdk as the module uses it (Kuadrant's fork at 6ceedbb), compiled natively: dispatcher, hostcalls,
//! logger, traits and types are the SDK's files. Two things differ, both done by sed when they were copied: the ABI is
//! "C-unwind", so that a panic of the module ends the simulated VM and not the simulator, and a status the SDK panics on
//! is returned instead, so that the module's own handling of it runs. `imports` is what Envoy provides: every
//! `proxy_*` function goes to the `sim::Host` of the current thread.
#![allow(clippy::all, unused)]
pub mod hostcalls;
pub mod sim;
pub mod traits;
pub mod types;
mod dispatcher;
mod imports;
mod logger;

pub fn set_log_level(level: types::LogLevel) { logger::set_log_level(level); }
pub fn set_root_context(callback: types::NewRootContext) { dispatcher::set_root_context(callback); }
pub fn set_stream_context(callback: types::NewStreamContext) { dispatcher::set_stream_context(callback); }
pub fn set_http_context(callback: types::NewHttpContext) { dispatcher::set_http_context(callback); }
