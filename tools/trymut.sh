#!/bin/bash
# usage: tools/trymut.sh SURVIVORS.jsonl ID PROP [width] [lines]: one check on one mutant
d=$(mktemp -d /tmp/tryXXXX); cp -a /repo/src $d/src
python3 - "$1" "$2" $d <<'P'
import json,sys
for l in open(sys.argv[1]):
    m=json.loads(l)
    if m["id"]==sys.argv[2]:
        open(sys.argv[3]+"/"+m["file"],"w").write(m["text"]); print(m["diff"]); break
P
cd /verif; python3 check.py $3 --root $d --out $d 2>&1 | grep -v "^  ok" | cut -c1-${4:-300} | sort | uniq | head -n ${5:-12}
rm -rf "$d"
