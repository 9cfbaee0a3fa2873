#!/bin/bash
# Builds every harness crate once; each check rebuilds by itself what changed in /repo.
cd "$(dirname "$0")" || exit 1
for d in harness/*/; do
  c=$(basename "$d")
  [ -f "$d/src/main.rs" ] || continue
  bash run.sh "$c" build || exit 1
done
