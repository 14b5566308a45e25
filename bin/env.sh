# Sourced by build.sh. Same toolchain as the repository's own offline build.
export HOME="${HOME:-/root}"
export PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$HOME/.cargo/bin:/root/.cargo/bin"
export RUSTUP_TOOLCHAIN=nightly-2025-12-04
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="${MEGASIM_TARGET:-$VERIF/build/target}"
export RUSTC_WRAPPER=
unset RUSTFLAGS RUSTDOCFLAGS LD_LIBRARY_PATH
