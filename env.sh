# toolchain settings shared by every build in /verif (offline)
export RUSTUP_TOOLCHAIN=${VERIF_TOOLCHAIN:-1.85.0-x86_64-unknown-linux-gnu}
export CARGO_NET_OFFLINE=true CARGO_RESOLVER_INCOMPATIBLE_RUST_VERSIONS=fallback
export CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
export CARGO_TARGET_DIR=${VERIF_TARGET:-/verif/target}
