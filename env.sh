# sourced by the checks
export RUSTUP_TOOLCHAIN=1.78.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export PATH=/root/.cargo/bin:$PATH HOME=${HOME:-/root}
export CARGO_TARGET_DIR=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)/target
unset RUSTFLAGS CARGO_INCREMENTAL
