#!/bin/bash
# usage: check.sh <property> [quick|thorough]   |   check.sh replay <file>
# Builds the checker against /repo's working tree and runs it.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
. ./env.sh
what=$1
if [ "$what" = replay ]; then
  prop=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$2") || exit 2
else
  prop=$what
fi
case $prop in
  C20|C22) crate=mc20 ;;
  *) crate=mc ;;
esac
log=$(mktemp)
trap 'rm -f "$log"' EXIT
if ! (cd $crate && cargo build --release --offline --locked --bin $crate >"$log" 2>&1); then
  cat "$log"; echo "check.sh: build failed"; exit 2
fi
tier=${2:-${VERIF_TIER:-quick}}
"$CARGO_TARGET_DIR/release/$crate" "$what" "$tier"
rc=$?
# the checker itself was ended by SIGILL, SIGABRT, SIGBUS, SIGFPE or SIGSEGV: once is no answer, so ask again;
# twice means that the code under test does it (a stack overflow, say)
case $rc in 132|134|135|136|139) ;; *) exit $rc ;; esac
echo "check.sh: ended by signal $((rc - 128)); once more"
"$CARGO_TARGET_DIR/release/$crate" "$what" "$tier"
rc=$?
case $rc in 132|134|135|136|139) ;; *) exit $rc ;; esac
if [ "$what" = replay ]; then
  echo "violation reproduced: ended by signal $((rc - 128))"
  exit 1
fi
mkdir -p replays
file=$PWD/replays/$prop.json
printf '{"property": "%s", "kind": "all", "tier": "%s", "message": "the program ends its process with signal %d", "reproduce": "/verif/check.sh replay <this file>"}\n' "$prop" "$tier" $((rc - 128)) >"$file"
echo "the program ends its process with signal $((rc - 128))"
echo "VIOLATION property=$prop replay=$file"
exit 1
