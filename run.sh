#!/usr/bin/env bash
# run.sh build                 build the harness from /repo's working tree
# run.sh check <property>      build, then run that property's check (VERIF_SEED, VERIF_TIER)
# run.sh replay <file>         build, then run one recorded case again
set -u
here="$(cd "$(dirname "$0")" && pwd)"
# shellcheck disable=SC1091
. /opt/vp/env.sh
export CARGO_TARGET_DIR="$here/target" RUSTFLAGS="--cap-lints warn" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
export VERIF_DIR="$here"
mkdir -p "$here/target" "$here/evidence" "$here/replays"

build() {
  exec 9>"$here/target/.lock"
  flock 9
  # cargo trusts modification times; a changed tree may carry old ones, so compare contents as well
  local h
  h=$(cd /repo/solana && find modules programs Cargo.toml -type f \( -name '*.rs' -o -name '*.toml' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
  if [ -f "$here/target/.src" ] && [ "$h" != "$(cat "$here/target/.src")" ]; then
    (cd "$here/harness" && cargo clean --offline --release --locked -p ntt-messages -p example-native-token-transfers \
      -p ntt-quoter -p ntt-transceiver -p dummy-transfer-hook -p wormhole-governance -p ntt-verif) >/dev/null 2>&1
  fi
  echo "$h" >"$here/target/.src"
  local log="$here/target/build.log"
  if ! (cd "$here/harness" && cargo build --offline --release --locked) >"$log" 2>&1; then
    # the Rust interface some drivers use may have changed; everything else speaks only instructions and accounts
    echo "note: building without the drivers that use the crates' Rust interface" >&2
    if ! (cd "$here/harness" && cargo build --offline --release --locked --no-default-features) >"$log.2" 2>&1; then
      tail -40 "$log.2" >&2
      echo "ERROR: the harness does not build against /repo" >&2
      exit 2
    fi
  fi
  # the TypeScript clients; only the properties about them need this
  local js="$here/target/client.js"
  if bash "$here/ts/build.sh" "$js.new" >"$here/target/bundle.log" 2>&1; then mv -f "$js.new" "$js"; else rm -f "$js"; fi
  js="$here/target/cli.js"
  if node "$here/ts/cli/build.mjs" "$js.new" >>"$here/target/bundle.log" 2>&1; then mv -f "$js.new" "$js"; else rm -f "$js"; fi
  flock -u 9
}

case "${1:-}" in
build) build ;;
check) build && exec "$here/target/release/ntt-verif" check "$2" ;;
replay) build && exec "$here/target/release/ntt-verif" replay "$2" ;;
*) echo "usage: run.sh build|check <property>|replay <file>" >&2; exit 2 ;;
esac
