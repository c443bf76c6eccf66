#!/bin/bash
# fixed.sh <property> <commit> <what>: records a repaired defect.
python3 - "$@" <<'P' >> /verif/known-findings.jsonl
import json,sys
p,c,w=sys.argv[1:4]
print(json.dumps(dict(status="fixed",property=p,commit=c,what=w,line=f"fixed: property={p} {c} {w}")))
P
