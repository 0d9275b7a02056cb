#!/bin/bash
# tools/revert_test.sh COMMIT CHECK...   runs checks with a fix taken back (in a copy of /repo)
c=$1; shift
d=$(mktemp -d /tmp/rv.XXXXXX)
cp -a /repo/. $d/
if git -C $d show $c | git -C $d apply -R 2>/dev/null; then
for k in "$@"; do
  echo "== revert $c $(git -C /repo log -1 --format=%s $c) : $k"
  VERIF_REPO=$d VERIF_EVIDENCE=/tmp/rv-ev timeout 900 /verif/check $k ${ARGS} 2>&1 | tail -${TAILN:-3} | cut -c1-300
done
else echo "cannot revert $c"; fi
rm -rf $d
