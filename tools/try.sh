#!/bin/bash
# usage: tools/try.sh EDIT PROP: run one check on one edit of the corpus and show what it says
d=$(mktemp -d /tmp/tryXXXX); cp -a /repo/src $d/src; cp /repo/*.toml /repo/*.py $d/ 2>/dev/null
python3 - "$1" $d <<'P'
import sys; sys.path.insert(0,'/verif/tools'); sys.dont_write_bytecode=True
import corpus
c=[c for c in corpus.load() if c["name"]==sys.argv[1]][0]
e=corpus.apply(c,sys.argv[2])
if e: print(e)
P
cd /verif; python3 check.py $2 --root $d --out $d 2>&1 | grep -v "^  ok" | cut -c1-${3:-300} | sort | uniq | head -n ${4:-12}
rm -rf "$d"
