#!/bin/bash
# gr.sh PREFIX...: runs harnesses and prints a short summary
cd "$(dirname "$0")/.."; export VERIF_DIR="$PWD"; case "$PWD" in /tmp/w/*) export VERIF_REPO=/tmp/w/repo;; esac
for h in "$@"; do timeout ${T:-900} bin/gosym run -h H_$h ${N:--native=false} $X 2>&1 | grep -v '^    cut\|loaded' | cut -c1-${C:-330} | head -${L:-24}; done
