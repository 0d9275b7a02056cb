#!/bin/bash
# try.sh ID [full]: demo on clean and patched copies; full: also the stable tests on the patched copy
for id in $1; do
w=$(mktemp -d /tmp/seed.XXXXXX); cp -a /repo/. $w/
s=$(mktemp -d /tmp/seedd.XXXXXX); cp -r /verif/seeded/$id/. $s/; rm -f $s/*.diff $s/meta.json
cd $w; t0=$(date +%s); timeout 300 $s/demo.sh > /tmp/mk/$id.clean 2>&1; c=$?; t1=$(date +%s)
git apply /verif/seeded/$id/patch.diff || echo NOAPPLY
go build ./... || echo NOBUILD
timeout 300 $s/demo.sh > /tmp/mk/$id.patched 2>&1; p=$?; t2=$(date +%s)
echo "$id clean=$c ($((t1-t0))s) patched=$p ($((t2-t1))s) $(grep -h -m1 'demo_test.go\|panic' /tmp/mk/$id.patched | cut -c1-150)"
rm -rf $w $s
done
