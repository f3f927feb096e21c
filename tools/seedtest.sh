#!/bin/bash
# seedtest.sh ID...: applies a planted change to /repo, builds, runs the stable
# tests, its demonstration and the check of its property, and undoes the change.
# DEMO_ONLY=1 leaves out the check; CHECK=P03 runs that check instead.
cd /verif || exit 2
for id in "$@"; do
    d=/verif/seeded/$id
    prop=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
    out=/tmp/seedtest.$id; mkdir -p $out
    git -C /repo checkout -q -- .
    if [ -z "$CHECK" ]; then
    (cd /repo && bash $d/demo.sh) >$out/demo0 2>&1; d0=$?
    fi
    git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
    if [ -z "$CHECK" ]; then
    bash /opt/vp/build.sh >$out/build 2>&1; b=$?
    bash /opt/vp/test.sh $out/t.json >$out/test 2>&1
    t=$(python3 -c "import json;d=json.load(open('$out/t.json'));print(len(d['passed']) if isinstance(d['passed'],list) else d['passed'])")
    (cd /repo && bash $d/demo.sh) >$out/demo1 2>&1; d1=$?
    fi
    c=-
    if [ -z "$DEMO_ONLY" ]; then
        s=$SECONDS
        VERIF_SEED=1 python3 run.py ${CHECK:-$prop} quick >$out/check 2>&1; c=$?
        c="$c $(grep -c VIOLATION $out/check) ($((SECONDS-s)) s)"
    fi
    git -C /repo checkout -q -- .
    echo "$id ${CHECK:-$prop}: demo unchanged=$d0 changed=$d1 build=$b tests=$t check=$c"
done
