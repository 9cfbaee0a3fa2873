#!/bin/bash
# run.sh <harness crate> <property id>   build the harness against /repo's working tree, run one check
# run.sh <harness crate> build           only build
# run.sh <harness crate> replay <file>   re-run one recorded case
set -u
root=$(cd "$(dirname "$0")" && pwd)
crate=$1
cd "$root/harness/$crate" || exit 4
export RUSTUP_TOOLCHAIN=1.77.2 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_INCREMENTAL=0 RUSTFLAGS="--cap-lints warn -Awarnings"
export CARGO_TARGET_DIR="$root/target/$crate"
export PATH="$PATH:/usr/local/bin:/root/.cargo/bin"
export VERIF_ROOT="$root"
unset CARGO_PROFILE_DEV_DEBUG
mkdir -p "$CARGO_TARGET_DIR" "$root/evidence"

build() {
  [ -x ./prepare.sh ] && { ./prepare.sh || return 1; }
  # cargo decides by modification time; decide by content, so that no copy of /repo with old
  # timestamps is taken for the tree that was built last.
  local now
  now=$( (cd /repo && find . \( -name target -o -name .git \) -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' -o -name '*.h' -o -name '*.cpp' \) -print0 | sort -z | xargs -0 sha256sum
          cd "$root/harness" && find . -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' -o -name '*.sh' -o -name '*.py' \) -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
  local stamp="$CARGO_TARGET_DIR/content.sha256"
  if [ -x "$CARGO_TARGET_DIR/debug/v$crate" ] && [ "$(cat "$stamp" 2>/dev/null)" = "$now" ]; then
    return 0
  fi
  rm -f "$stamp"
  if [ -d "$CARGO_TARGET_DIR/debug" ]; then
    # shellcheck disable=SC2046
    cargo clean --offline $(cat clean.txt 2>/dev/null | sed 's/^/-p /') >/dev/null 2>&1
  fi
  cargo build --offline > "$CARGO_TARGET_DIR/build.log" 2>&1 || { tail -n 60 "$CARGO_TARGET_DIR/build.log" >&2; return 1; }
  echo "$now" > "$stamp"
}

exec 9> "$CARGO_TARGET_DIR/lock"
flock 9
build || { echo "the harness does not build against /repo" >&2; exit 5; }
flock -u 9
exec 9>&-
ulimit -v 25000000 2>/dev/null
case "$2" in
  build) exit 0 ;;
  replay) exec "$CARGO_TARGET_DIR/debug/v$crate" replay "$3" ;;
  *) exec "$CARGO_TARGET_DIR/debug/v$crate" check "$2" ;;
esac
