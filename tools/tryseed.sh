#!/bin/bash
# tools/tryseed.sh <seed> [nochecks]: validates a planted bug (build, stable tests, demo both ways) and runs its property's check.
cd "$(dirname "$0")/.."; S=$PWD/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo dirty"; exit 1; }
T=$(mktemp -d); cp "$S"/demo.sh "$S"/main.rs "$T"/ 2>/dev/null
(cd /repo && bash "$T/demo.sh" >"$T/clean.log" 2>&1); echo "demo clean: $?"
git -C /repo apply "$S/patch.diff" || { echo "no apply"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >"$T/build.log" 2>&1; echo "build: $?"
bash /opt/vp/test.sh "$T/o.json" >/dev/null 2>&1
python3 - "$T/o.json" <<'P'
import json,sys
o=json.load(open(sys.argv[1]));print("tests passed",len(o['passed']),"failed",o['failed'])
P
(cd /repo && bash "$T/demo.sh" >"$T/bug.log" 2>&1); echo "demo bug: $?"; tail -2 "$T/bug.log"
if [ -z "$2" ]; then bash check.sh $P quick > "$T/check.log" 2>&1; echo "check $P: $?"; tail -3 "$T/check.log"; fi
rm -rf "$T"
