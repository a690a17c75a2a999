#!/bin/bash
# builds the checkers once
cd "$(dirname "$0")" || exit 2
. ./env.sh
for c in mc mc20; do
  [ -f $c/Cargo.toml ] || continue
  (cd $c && cargo build --release --offline --locked --bins 2>&1) || exit 1
done
