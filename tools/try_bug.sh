#!/bin/bash
# try_bug.sh PATCH CHECK...: runs checks against a scratch copy of /repo with PATCH applied.
set -e
p=$(realpath "$1"); shift
d=$(mktemp -d /tmp/try-XXXXXX)
trap 'rm -rf "$d"' EXIT
cp -a /repo "$d/repo"
(cd "$d/repo" && git apply "$p")
for c in "$@"; do
  TOSCA_REPO=$d/repo VERIF_EVIDENCE=$d/ev timeout 900 python3 /verif/checks/$c.py > $d/out 2>&1 && rc=0 || rc=$?
  echo "== $c rc=$rc"; tail -n ${LINES_OUT:-4} $d/out | cut -c1-600
done
