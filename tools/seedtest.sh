#!/bin/bash
# seedtest.sh ID [PROPS] : validates seed ID in a scratch copy: demo on both trees, stable tests, then the checks of PROPS (default: its property)
id=$1; s=/verif/seeded/$id
w=/tmp/seedwork.$id
rm -rf $w; mkdir -p $w
git -C /repo archive HEAD | tar -x -C $w
cd $w; cp /repo/Cargo.lock . 2>/dev/null
if [ -z "$NOTEST" ]; then
bash $s/demo.sh > $w/demo0.log 2>&1; r0=$?; fi
git init -q . ; git apply $s/patch.diff || { echo "$id: patch does not apply"; exit 1; }
if [ -z "$NOTEST" ]; then
bash $s/demo.sh > $w/demo1.log 2>&1; r1=$?
. /opt/vp/env.sh
cd $w
CARGO_TARGET_DIR=/tmp/seedtarget cargo test --workspace --no-fail-fast --offline > $w/test.log 2>&1
f=$(grep -hE "^test .*(FAILED|failed)$" $w/test.log | grep -v "class::tests::classification\|^test result" | tr '\n' ' ')
c=$(grep -h 'test result' $w/test.log | wc -l)
echo "$id: demo unchanged=$r0 patched=$r1 testgroups=$c failing=[$f]"
[ $r0 = 0 ] || tail -3 $w/demo0.log; tail -2 $w/demo1.log | cut -c1-200
fi
if [ -z "$NOCHECK" ]; then
for p in ${2:-$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")}; do
echo "== $id $p"
cd /verif && BF_REPO=$w timeout 900 python3 checks/run.py $p | cut -c1-300 | tail -4
done; fi
rm -rf $w
