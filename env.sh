# sourced by every script here: one offline Rust environment, all build output under /verif/target
export HOME=/root CARGO_HOME="${CARGO_HOME:-/root/.cargo}" RUSTUP_HOME="${RUSTUP_HOME:-/root/.rustup}"
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUST_BACKTRACE RUST_LIB_BACKTRACE RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_INCREMENTAL RUSTC_WRAPPER
export VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export REPO=/repo
