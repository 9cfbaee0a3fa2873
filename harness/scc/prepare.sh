#!/bin/bash
# the library which is preloaded into the workers
mkdir -p "$CARGO_TARGET_DIR"
exec gcc -O1 -shared -fPIC -w -o "$CARGO_TARGET_DIR/fault.so" fault.c
