#!/bin/bash
# plant.sh ID: verify the planted bug /verif/seeded/ID in a scratch copy: tests, demo, check
ID=$1; S=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
D=/tmp/plant-$ID; rm -rf "/tmp/plant-$ID"; cp -a /repo "$D"; cd "$D" || exit 1
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$D:/opt/vp/plugins
mkdir -p /tmp/plant-$ID-demo; cp $S/* /tmp/plant-$ID-demo/; rm -f /tmp/plant-$ID-demo/patch.diff /tmp/plant-$ID-demo/meta.json
PYTHONPATH=$D bash /tmp/plant-$ID-demo/demo.sh >/tmp/plant-$ID-demo/clean.log 2>&1; A=$?
git apply $S/patch.diff || { echo "$ID: does not apply"; exit 1; }
PYTHONPATH=$D bash /tmp/plant-$ID-demo/demo.sh >/tmp/plant-$ID-demo/bug.log 2>&1; B=$?
T=skipped
if [ -z "$NOTEST" ]; then
/opt/venv/bin/python -m pytest -q --doctest-modules pddl tests -p vp_path_ids -p no:cacheprovider -p no:randomly -o log_cli=0 -n 4 --timeout=60 --continue-on-collection-errors -o junit_family=xunit2 --junitxml=/tmp/plant-$ID-demo/j.xml >/tmp/plant-$ID-demo/test.log 2>&1
T=$(tail -1 /tmp/plant-$ID-demo/test.log)
fi
unset PYTHONHASHSEED; C=skipped; cd /verif; touch /tmp/plant-$ID-demo/check.log
if [ -z "$NOCHECK" ]; then SX_REPO=$D timeout 900 ./check.sh ${CHECK:-$P} --no-evidence > /tmp/plant-$ID-demo/check.log 2>&1; C=$?; fi
echo "$ID [$P] demo clean=$A bug=$B | tests: $T | check exit=$C $(grep -A0 VIOLATION /tmp/plant-$ID-demo/check.log | head -1) $(grep wall= /tmp/plant-$ID-demo/check.log | tail -1 | sed 's/.*wall=/wall=/') $(grep scenario: /tmp/plant-$ID-demo/check.log)"
rm -rf "/tmp/plant-$ID"
