# sourced: toolchain environment for offline builds
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
export CARGO_TARGET_DIR=${CARGO_TARGET_DIR:-/verif/target}
CARGO_CFG="--config /opt/vp/git-deps/config.toml --offline"
