#!/bin/bash
# scc looks for its library beside itself, under the name it has on Windows
mkdir -p "$CARGO_TARGET_DIR/debug"
exec ln -sfn deps/libscc_lib.so "$CARGO_TARGET_DIR/debug/scc_lib.dll"
