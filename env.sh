# Build environment of the simulator (sourced).
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
export VERIF_ROOT="$dir"
export RUSTC_WRAPPER="$dir/sim/rustc-wrap.sh"
export CARGO_TARGET_DIR="$dir/sim/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS
VERIF_BIN="$CARGO_TARGET_DIR/release/dbsim"
build() {
  local log
  log="$(cd "$dir/sim" && cargo build --release --offline --locked -q 2>&1)" || { echo "$log" >&2; echo "BUILD FAILED" >&2; return 1; }
}
