fn main() {
    println!("cargo:rustc-env=WASM_SHIM_PROFILE=sim");
    println!("cargo:rustc-env=WASM_SHIM_FEATURES=[]");
    println!("cargo:rustc-env=WASM_SHIM_GIT_HASH=sim");
    println!("cargo:rerun-if-changed=build.rs");
}
