#!/usr/bin/env python3
"""Writes DESIGN.md: the prose of tools/design.md, a section per property from the rule table, the planted bugs and who catches them."""
import glob
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from pstatic import rules  # noqa: E402

props = {p["id"]: p for p in map(json.loads, open(os.path.join(HERE, "properties.jsonl")))}
caught = json.load(open(os.path.join(HERE, "tools/seeds/caught.json")))
na = {c["property"]: c["reason"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["not_applicable"]}


def sections():
    out = []
    for i, p in sorted(props.items()):
        out.append(f"### {i} {p['title']}\n")
        c = rules.CHECKS.get(i)
        if c is None:
            out.append(f"Not applicable: {na[i]}\n")
            continue
        out.append(f"*Statement.* {p['statement']}\n")
        out.append(f"*Why tests cannot settle it.* {p['why_tests_cant']}\n")
        out.append(f"*Technique.* {c['technique'][0].upper() + c['technique'][1:]}. Rules: "
                   + ", ".join(f"`pstatic/rules/{f.__module__.rsplit('.', 1)[1]}.py:{f.__name__}`" for f in c["rules"])
                   + f"; at least {c['min']} obligations, fewer are an analysis error.\n")
        out.append(f"*What is decided.* {c['explanation']}\n")
    return "\n".join(out)


def planted():
    out = ["| planted bug | property | caught by | needs |", "|---|---|---|---|"]
    for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*"))):
        m = json.load(open(os.path.join(d, "meta.json")))
        n = os.path.basename(d)
        out.append(f"| {n} | {m['property']} | {' '.join(caught.get(n, ['?'])) or '**none**'} | {m['needs'].replace('|', '/')} |")
    return "\n".join(out)


def edits():
    n = {"bug": 0, "same": 0}
    for f in glob.glob(os.path.join(HERE, "tools/edits/*.txt")):
        for k in re.findall(r"^=== (bug|same)", open(f).read(), re.M):
            n[k] += 1
    return f"{n['bug']} bugs and {n['same']} behaviour-preserving edits"


text = open(os.path.join(HERE, "tools", "design.md")).read()
text = text.replace("@COUNT@", str(len(caught))).replace("@SECTIONS@", sections()).replace("@PLANTED@", planted()).replace("@EDITS@", edits())
open(os.path.join(HERE, "DESIGN.md"), "w").write(text)
