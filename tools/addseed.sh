#!/bin/bash
# addseed.sh <id> <property> <needs> <what it breaks>   (demo main.rs on stdin; the change is in /tmp/wt's working tree)
# Confirms in scratch copies that the demo passes without and fails with the change, and that the tests still pass.
set -u
id=$1 prop=$2 needs=$3 breaks=$4
d=/verif/seeded/$id
mkdir -p "$d"
cat > "$d/main.rs"
git -C /tmp/wt diff > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "$id: no change"; exit 1; }
python3 - "$d/meta.json" "$prop" "$needs" "$breaks" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],"w"),indent=1)
P
cat > "$d/demo.sh" <<'D'
#!/bin/bash
# cwd: the repository. Builds main.rs (beside this file) against it in a scratch directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
export RUSTUP_TOOLCHAIN=1.77.2 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target" CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
export RUSTFLAGS="--cap-lints warn -Awarnings"
mkdir -p "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cp "$repo/scc/cli/src/opts.rs" "$work/src/opts.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
redscript = { path = "$repo/core" }
redscript-decompiler = { path = "$repo/decompiler" }
hashbrown = "0.14"
bpaf = "0.7"
[profile.dev]
debug = 0
overflow-checks = false
debug-assertions = false
T
cd "$work" && cargo build --offline -q || { echo "demo does not build"; exit 99; }
"$work/target/debug/demo"
D
ok=1
(cd /repo && bash "$d/demo.sh" > /tmp/demo.clean 2>&1); a=$?
(cd /tmp/wt && bash "$d/demo.sh" > /tmp/demo.bad 2>&1); b=$?
[ $a = 0 ] || { echo "$id: demo fails on the clean tree ($a)"; tail -5 /tmp/demo.clean; ok=0; }
{ [ $b != 0 ] && [ $b != 99 ]; } || { echo "$id: demo does not fail with the change ($b)"; tail -5 /tmp/demo.bad; ok=0; }
git -C /tmp/wt checkout -q -- .
git -C /repo apply --check "$d/patch.diff" || ok=0
[ $ok = 1 ] && echo "$id: demo confirmed"
