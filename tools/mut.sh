#!/bin/bash
# mut.sh FILE 'python expression on s' PROP...  : applies a textual mutation in a scratch copy and runs the checks on it (development)
set -e
D=/tmp/mutrepo
mkdir -p $D; rsync -a --delete --exclude _build --exclude .git /repo/ $D/
python3 - "$D/$1" "$2" <<'P'
import sys,re
p=sys.argv[1]; s=open(p).read(); o=s
exec(sys.argv[2])
assert s!=o,"mutation changed nothing"
open(p,'w').write(s)
P
(cd /tmp && diff -u /repo/$1 $D/$1 | grep '^[+-]' | head -${MUTLINES:-12}) || true
shift 2
cd ${MCV:-/verif}
for c in "$@"; do MC_REPO=$D ./check.py $c --run $MUTARGS 2>&1 | grep -a "violation\|error:\|KNOWN" || echo "$c: NOT DETECTED"; done
