#!/bin/bash
# Build the harness against /repo's current working tree and run one check.
#   run.sh ID [quick|thorough]      run.sh build
cd "$(dirname "$0")/harness" || exit 2
[ "$2" = thorough ] && export VERIF_TIER=thorough
[ "$2" = quick ] && export VERIF_TIER=quick
# cargo decides by file times; make sure a changed source is seen whatever its time stamp
h=$(cd /repo && { git ls-files -z -- '*.rs' '*.toml' '*.lock'; git ls-files -zo --exclude-standard -- '*.rs' '*.toml'; } | xargs -0 sha256sum 2>/dev/null | sha256sum | cut -c1-64)
if [ -d target ] && [ "$(cat target/.repo-hash 2>/dev/null)" != "$h" ]; then
  cargo clean --offline -p aj -p aj_core -p aj_macro >/dev/null 2>&1
fi
log=$(mktemp /tmp/ajv-build.XXXXXX)
if ! cargo build --offline >"$log" 2>&1; then
  tail -40 "$log"; rm -f "$log"
  echo "error: the harness does not build against /repo"
  exit 2
fi
rm -f "$log"
echo "$h" > target/.repo-hash
[ "$1" = build ] && exit 0
exec ./target/debug/ajv check "$1"
