#!/bin/bash
# plant.sh ID [CHECK...]: confirm a planted bug of /verif/seeded/ID (demo clean=0, demo patched!=0, stable
# tests pass) and run the property's quick check (or the checks given) against it; /repo is restored after.
d=/verif/seeded/$1; shift
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo not clean"; exit 2; }
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
t=$(mktemp -d /tmp/plant.XXXX); cp -r $d $t/d; rm -f $t/d/patch.diff $t/d/meta.json
trap 'git -C /repo checkout -q -- .; rm -rf "$t"' EXIT
export PYTHONDONTWRITEBYTECODE=1
(cd /repo; timeout 300 bash $t/d/demo.sh >$t/o 2>&1); r=$?; echo "$prop $(basename $d): demo clean=$r"; [ $r = 0 ] || tail -5 $t/o
git -C /repo apply $d/patch.diff || exit 2
(cd /repo; timeout 300 bash $t/d/demo.sh >$t/o 2>&1); r=$?; echo "  demo patched=$r: $(tail -1 $t/o | cut -c1-150)"
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh /tmp/out.json >/tmp/t.log 2>&1; echo "  tests: $(python3 /tmp/w/cmp.py | tail -1)"; fi
for c in ${@:-$prop}; do VERIF_SEED=1 VERIF_TIER=quick bash /verif/run.sh $c --tier quick >$t/c 2>&1; echo "  $c exit=$? $(grep -c '^VIOLATION' $t/c) $(grep -m1 '^VIOLATION' $t/c | cut -c1-160)"; grep -A3 -m1 '^VIOLATION' $t/c | tail -2| cut -c1-300; done
