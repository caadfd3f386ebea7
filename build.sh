#!/bin/bash
# Builds the simulator against /repo's current working tree.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-1.88.0}" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
export RUSTC_WRAPPER=
mkdir -p "$here/sim/target/release"
exec 9>"$here/sim/target/.lock"
flock 9
# what the code says decides, not file times: a change of content forces a rebuild of /repo's crates
now="$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' \) -print0 \
      | sort -z | xargs -0 sha256sum | sha256sum)"
stamp="$here/sim/target/.repo-stamp"
if [ "$(cat "$stamp" 2>/dev/null)" != "$now" ]; then
  rm -f "$stamp"
  find "$here/sim/target/release/.fingerprint" -maxdepth 1 \( -name 'cfg-*' -o -name 'sim-*' \) -exec rm -rf {} + 2>/dev/null
fi
cd "$here/sim" || exit 2
log="$here/sim/target/build.log"
if ! cargo build --release --offline >"$log" 2>&1; then
  cat "$log" >&2
  echo "the simulator does not build against /repo" >&2
  exit 2
fi
echo "$now" >"$stamp"
