#!/bin/bash
# usage: seed.sh ID [notest]   checks a planted bug: applies, builds, tests, demo; then runs the property's quick check
cd /repo && [ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
d=/verif/seeded/$1; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
run_demo() { (cd /repo && timeout 300 bash $d/demo.sh >/tmp/demo.$1.log 2>&1; echo $?); }
echo "demo clean: $(run_demo clean)"
git apply $d/patch.diff || exit 1
if bash /opt/vp/build.sh >/tmp/seed.build 2>&1; then
  [ "$2" = notest ] || bash /opt/vp/test.sh /tmp/seed.json 2>&1 | tail -1
  echo "demo patched: $(run_demo patched)"; tail -2 /tmp/demo.patched.log
  (cd /verif && timeout 900 python3 run.py $prop | tail -3)
else echo "BUILD FAILED"; tail -5 /tmp/seed.build; fi
git -C /repo checkout -q -- . ; bash /opt/vp/build.sh >/dev/null 2>&1
