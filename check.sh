#!/bin/bash
# check.sh ID [quick|thorough]   run one property check against /repo's working tree
# check.sh --replay FILE         re-run one saved failing case
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here"
. "$here/env.sh"
export VERIF_SEED="${VERIF_SEED:-1}"
log="$here/work/build.$$.log"
mkdir -p "$here/work"
build() {
  # cargo decides freshness by mtime; a content hash makes sure a changed /repo is always rebuilt
  local h old=
  h="$(cd /repo && find . \( -name target -o -name .git \) -prune -o -type f \( -name '*.rs' -o -name '*.toml' \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -c1-64)"
  [ -f "$CARGO_TARGET_DIR/.repo_hash" ] && old="$(cat "$CARGO_TARGET_DIR/.repo_hash")"
  cd "$here/harness" || return 1
  if [ "$h" != "$old" ]; then
    cargo clean --release --offline -p antlr-rust -p vh
    rm -f "$CARGO_TARGET_DIR/.repo_hash"
  fi
  { cargo build --release --offline ||
    # internals reached through the hook may change shape without any change of behaviour
    { echo "retrying without the checks of internals"; cargo build --release --offline --no-default-features; }; } && echo "$h" > "$CARGO_TARGET_DIR/.repo_hash"
}
( flock 9; build ) 9>"$here/work/.lock" >"$log" 2>&1
rc=$?
if [ "$1" = "--build-only" ]; then cat "$log"; rm -f "$log"; exit $rc; fi
if [ $rc -ne 0 ]; then
  echo "check error (not a verdict): the harness does not build against /repo" >&2
  grep -E "^error" -A8 "$log" | head -60 >&2
  rm -f "$log"
  exit 2
fi
rm -f "$log"
if [ "$1" = "--replay" ]; then
  exec "$CARGO_TARGET_DIR/release/vh" replay "$2"
fi
tier="${2:-${VERIF_TIER:-quick}}"
exec "$CARGO_TARGET_DIR/release/vh" run "$1" "$tier"
