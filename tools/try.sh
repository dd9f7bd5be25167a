#!/bin/bash
# tools/try.sh DIR CHECK...: runs checks against the copy of the repository in DIR, keeping their output out of /verif.
dir=$1; shift
export VERIF_REPO=$dir VERIF_OUTDIR=$(mktemp -d /tmp/tryout.XXXXXX)
for c in "$@"; do
  out=$(python3 "$(dirname "$0")/../check.py" $c 2>&1); rc=$?
  echo "$c rc=$rc $(echo "$out" | head -${TRY_LINES:-1} | cut -c1-${TRY_COLS:-220})"
done
rm -rf "$VERIF_OUTDIR"
