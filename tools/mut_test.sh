#!/bin/bash
# tools/mut_test.sh FILE 'sed expression' CHECK...   runs checks with an edit made in a copy of /repo
f=$1; e=$2; shift 2
d=$(mktemp -d /tmp/rv.XXXXXX)
cp -a /repo/. $d/
sed -i "$e" $d/$f
if git -C $d diff --quiet; then echo "no change: $e"; else
for k in "$@"; do
  echo "== $f $e : $k"
  VERIF_REPO=$d VERIF_EVIDENCE=/tmp/rv-ev timeout 900 /verif/check $k ${ARGS} 2>&1 | tail -${TAILN:-3} | cut -c1-300
done
fi
rm -rf $d
