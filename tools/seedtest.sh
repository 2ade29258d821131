#!/bin/bash
# usage: tools/seedtest.sh ID [-n]   checks that seeded/ID counts, and (without -n) whether its property's check catches it
V=$(cd "$(dirname "$0")/.." && pwd); D=$V/seeded/$1
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo && git status --short | grep . && { echo "/repo is not clean"; exit 9; }
T=$(mktemp -d); cp -r $D/. $T/; rm -f $T/*.diff $T/meta.json
bash $T/demo.sh >/tmp/demo0.log 2>&1 || { echo "$1: demo fails on unchanged"; tail -5 /tmp/demo0.log; }
git apply $D/patch.diff || { echo "$1: does not apply"; exit 9; }
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || echo "$1: build fails"
bash /opt/vp/test.sh /tmp/st.json 2>&1 | tail -1
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/verif/stubs /opt/venv/bin/python -m pytest -q -p no:cacheprovider tests -n 8 2>&1 | tail -1
bash $T/demo.sh >/tmp/demo1.log 2>&1 && echo "$1: demo passes with the patch"
[ "$2" = -n ] || { cd $V; python3-vt bin/check.py $P 2>&1 | tail -4 | cut -c1-300; }
cd /repo && git checkout -- . && rm -rf "$T"
