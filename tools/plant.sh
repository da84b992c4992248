#!/bin/bash
# plant.sh ID [seconds]: verify a planted bug in a scratch copy and run its property's quick check on it
set -u
id=$1; d=/verif/seeded/$id; w=$(mktemp -d /tmp/plant.XXXXXX)
prop=$(/opt/venv/bin/python -c "import json,sys; print(json.load(open('$d/meta.json'))['property'])")
trap "/bin/rm -rf $w" EXIT
git clone -q /repo $w/repo && cp -a $d $w/demo
cd $w/repo
run() { PYTHONDONTWRITEBYTECODE=1 DP_REPO=$w/repo timeout 300 bash $w/demo/demo.sh >$w/out 2>&1; rc=$?; tail -c 700 $w/out; return $rc; }
run; a=$?
git apply $d/patch.diff || { echo "$id: patch does not apply"; exit 1; }
run; b=$?
t=$(PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p no:tldr tests dp 2>&1 | tail -1)
[ "${2:-}" = demo ] && { echo "== $id $prop demo clean=$a bug=$b tests: $t"; exit; }
cd /verif; DP_REPO=$w/repo DPSIM_NOEVID=1 timeout 900 ./check $prop quick > $w/chk 2>&1; c=$?
echo "== $id $prop demo clean=$a bug=$b tests: $t  check rc=$c $(grep -m1 VIOLATION $w/chk | head -c 300)"
