#!/bin/bash
# Builds the harness offline against /repo's working tree (incremental when the target folder is there).
# With an argument, that crate (harness or typed); the default is both.
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 2
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=1.82.0 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$PWD/harness/target"
for crate in ${1:-harness typed}; do
  log=$(mktemp)
  if ! cargo build --offline --locked --manifest-path $crate/Cargo.toml >"$log" 2>&1; then
    cat "$log" >&2; rm -f "$log"; echo "$crate build failed" >&2
    [ -z "$1" ] && [ $crate = typed ] && continue # only C04 needs it
    return 2 2>/dev/null || exit 2
  fi
  rm -f "$log"
done
