#!/bin/bash
# cargo judges staleness by modification times; judge by content instead, so that no change of /repo is missed.
H=$(cd /repo && find nyx-core Cargo.toml -path '*/target' -prune -o \( -name '*.rs' -o -name 'Cargo.toml' \) -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
F=$CARGO_TARGET_DIR/repo.sha
if [ "$(cat "$F" 2>/dev/null)" != "$H" ]; then
  find "$CARGO_TARGET_DIR" -maxdepth 4 -type d -path '*/.fingerprint/nyx-space-*' -prune -exec rm -rf {} + 2>/dev/null
  echo "$H" > "$F"
fi
exit 0
