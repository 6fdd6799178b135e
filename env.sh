# sourced by every script of /verif
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=1.70.0
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export CARGO_PROFILE_DEV_DEBUG=0 RUST_BACKTRACE=0 RUSTC_WRAPPER=
export RUSTFLAGS="--cfg banyan_sim"
unset CARGO_BUILD_TARGET RUST_LOG
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export CARGO_TARGET_DIR="${VERIF_TARGET_DIR:-$VERIF/target}"
