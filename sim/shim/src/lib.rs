// The real crate, unmodified: /repo/crates/wasm-shim/src/lib.rs and everything it declares.
#![allow(unused)]
include!("/repo/crates/wasm-shim/src/lib.rs");

/// What the wasm runtime does when it instantiates the module.
pub fn sim_start() {
    start();
}
