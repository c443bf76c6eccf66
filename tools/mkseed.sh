#!/bin/bash
# tools/mkseed.sh <seed> <property> <needs> <breaks>: turns /repo's current diff into a seed (main.rs on stdin) and reverts /repo.
cd "$(dirname "$0")/.."; S=$PWD/seeded/$1; mkdir -p "$S"
git -C /repo diff > "$S/patch.diff"; git -C /repo checkout -q -- .
[ -s "$S/patch.diff" ] || { echo "empty patch"; exit 1; }
cat > "$S/main.rs"; cp tools/demo.sh.tpl "$S/demo.sh"
python3 -c "
import json,sys
json.dump(dict(property=sys.argv[1],needs=sys.argv[2],what_it_breaks=sys.argv[3]),open('$S/meta.json','w'),indent=1)" "$2" "$3" "$4"
