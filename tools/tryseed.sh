#!/bin/bash
# usage: tools/tryseed.sh ID [width] [lines]: run the check of its property on one planted bug and show what it says
d=$(mktemp -d /tmp/tryXXXX); cp -a /repo/src $d/src; cp /repo/*.toml $d/; i=$(ls -d /verif/seeded/$1*|head -1)
(cd $d && patch -s -p1 < $i/patch.diff)
cd /verif; python3 check.py ${PROP:-$(python3 -c "import json;print(json.load(open('$i/meta.json'))['property'])")} --root $d --out $d 2>&1 | grep -v "^  ok" | cut -c1-${2:-300} | sort | uniq | head -n ${3:-12}
rm -rf "$d"
