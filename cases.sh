#!/bin/bash
# Runs every concrete history (development aid)
cd /verif/harness; cargo build --offline 2>&1 | grep -E '^error' -A9 | head -${1:-60}
for c in $(grep -oE '^    C[0-9]+ [a-z_0-9]+:' src/cases.rs | awk '{print $2}' | tr -d :); do echo "$c: $(target/debug/replay case $c 2>/dev/null)"; done
