#!/bin/bash
# check.sh <property> [--replay family:case] : builds the harness against /repo's working tree and runs one check.
set -u
V=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS=
export MC_VERIF=$V
mkdir -p "$V/target"
id=$1
case $id in
setup) feat=store;;
C01|C02) feat=store;;
C03|C04|C05) feat=metrics;;
C06|C07) feat=relations;;
C08|C09) feat=eval;;
C10|C11|C12) feat=files;;
C13) feat=ttest;;
C14|C15|C16) feat=randomised;;
C17|C18) feat=anova;;
C19|C20|C21) feat=cli;;
C22) feat=history;;
C23) feat=symmetry;;
C24) feat=total;;
C25) feat=pipe;;
C26) feat=side;;
*) echo "unknown property $id"; exit 2;;
esac
build() { # log, command...
  local log=$1; shift
  if ! "$@" >"$log" 2>&1; then cat "$log"; echo "ENGINE ERROR: build failed"; exit 2; fi
}
( cd "$V/harness" && CARGO_TARGET_DIR="$V/target" build "$V/target/build.log" cargo build --release --offline --locked --features $feat ) || exit 2
case $id in
C11|C19|C20|C21|C25|C26)
  ( cd /repo && CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only build "$V/target/build-cli.log" cargo build --workspace --features elinor/serde --offline ) || exit 2
  export MC_BIN=/repo/target/debug;;
esac
case $id in
C21) shim=shim;;
C26) shim=gate;;
*) shim=;;
esac
if [ -n "$shim" ]; then
  build "$V/target/build-shim.log" gcc -O1 -shared -fPIC -o "$V/target/$shim.so" "$V/harness/shim/$shim.c" -ldl || exit 2
fi
[ "$id" = setup ] && exit 0
exec "$V/target/release/mc" "$@"
