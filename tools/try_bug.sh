#!/bin/bash
# try_bug.sh ID [notest]: demo on the clean tree, then patch, build, tests, demo, check; undoes the patch.
V=$(cd "$(dirname "$0")/.." && pwd); B=$V/seeded/$1
P=$(python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 2; }
if [ "$2" != check ]; then
  bash /opt/vp/build.sh > /tmp/try.log 2>&1
  bash "$B/demo.sh" > /tmp/demo0.log 2>&1; echo "$1: demo clean rc=$?"
fi
git apply "$B/patch.diff" || exit 2
if [ "$2" != check ]; then
  bash /opt/vp/build.sh > /tmp/try.log 2>&1 || echo "$1: BUILD FAILED"
  bash "$B/demo.sh" > /tmp/demo1.log 2>&1; echo "$1: demo patched rc=$?"
  [ "$2" = notest ] || { bash /opt/vp/test.sh /tmp/try.json > /dev/null 2>&1; echo "$1: $(python3 $V/tools/stable.py /tmp/try.json)"; }
fi
cd "$V" && /opt/veriftools/pyvenv/bin/python driver/run_check.py "$P" > /tmp/check.log 2>&1; echo "$1: check $P rc=$? $(grep -c VIOLATION /tmp/check.log)"; tail -3 /tmp/check.log | cut -c1-400
git -C /repo checkout -q -- .
