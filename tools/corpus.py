#!/usr/bin/env python3
"""Run the checks over small edits of the package: breaking ones must be reported, harmless ones not.

usage: corpus.py [-k TEXT] [-v] [--props C01,C02]
The edits are in tools/edits/*.txt; each is applied to a scratch copy of /repo/src under /tmp.
Format: blocks
=== bug|same NAME PROPS            (PROPS: properties that must report it, comma separated; '-' for none; same: -C06 for a property that it does break)
--- FILE                           (FILE @2: the second occurrence, FILE @all: every one)
<old text>
>>>
<new text>
"""
import argparse
import contextlib
import glob
import io
import json
import os
import shutil
import sys
import tempfile
from multiprocessing import Pool

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def load():
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, "tools", "edits", "*.txt"))):
        cur = None
        for line in open(f):
            if line.startswith("=== "):
                _, kind, name, props = line.split()
                cur = {"kind": kind, "name": name, "props": [] if props == "-" else props.split(","), "edits": []}
                out.append(cur)
                mode = None
            elif line.startswith("--- "):
                cur["edits"].append([line[4:].strip(), "", ""])
                mode = 1
            elif line.strip() == ">>>":
                mode = 2
            elif cur is not None and mode:
                cur["edits"][-1][mode] += line
    return out


def apply(case, root):
    for f, old, new in case["edits"]:
        f, _, which = f.partition(" @")
        p = os.path.join(root, "src", "protosym", f)
        s = open(p).read() if os.path.exists(p) else ""
        old, new = old[:-1] if old.endswith("\n") else old, new[:-1] if new.endswith("\n") else new
        if old.strip() == "":
            s = s + new + "\n"
        else:
            n = s.count(old)
            if which == "all" and n:
                s = s.replace(old, new)
            elif which and n >= int(which):
                parts = s.split(old)
                k = int(which)
                s = old.join(parts[:k]) + new + old.join(parts[k:])
            elif n != 1:
                return f"{f}: text occurs {n} times: {old.strip().splitlines()[0]}"
            else:
                s = s.replace(old, new)
        open(p, "w").write(s)
    return None


def one(job):
    case, props = job
    import check
    d = tempfile.mkdtemp(prefix="corpus-", dir="/tmp")
    try:
        shutil.copytree("/repo/src", os.path.join(d, "src"), ignore=shutil.ignore_patterns("__pycache__"))
        err = apply(case, d)
        if err:
            return case, None, err, ""
        res, out = {}, io.StringIO()
        for p in props:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
                try:
                    rc = check.run(p, d, "quick", os.path.join(d, "ev"))
                except Exception as e:
                    import traceback
                    traceback.print_exc()
                    rc = 3
            try:
                und = len(json.load(open(os.path.join(d, "ev", p + ".json")))["coverage"]["undecided"]) if rc < 2 else 0
            except Exception:
                und = 0
            res[p] = (rc, und)
        return case, res, None, out.getvalue()
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-k", default="")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--props", default="")
    ap.add_argument("-a", action="store_true", help="run all properties on bugs too")
    a = ap.parse_args()
    from pstatic import rules
    allp = a.props.split(",") if a.props else sorted(rules.CHECKS)
    jobs = []
    for c in load():
        if a.k not in c["name"] and not (a.k.startswith("^") and c["name"].startswith(a.k[1:])):
            continue
        ps = [p for p in allp if "-" + p not in c["props"]] if c["kind"] == "same" or a.a else [p for p in c["props"] if p in allp]
        if ps:
            jobs.append((c, ps))
    bad = 0
    with Pool(int(os.environ.get("JOBS", "8")), maxtasksperchild=3) as pool:
        for case, res, err, out in pool.imap(one, jobs):
            if err:
                print(f"!! {case['name']}: {err}")
                bad += 1
                continue
            if case["kind"] == "bug":
                miss = [p for p in case["props"] if p in res and res[p][0] != 1]
                if miss:
                    bad += 1
                    print(f"MISSED {case['name']}: " + " ".join(f"{p}(rc={res[p][0]},und={res[p][1]})" for p in miss))
                elif a.a:
                    print(f"caught {case['name']}: " + " ".join(p for p in res if res[p][0] == 1))
            else:
                al = [p for p in res if res[p][0] != 0]
                un = [f"{p}:{res[p][1]}" for p in res if res[p][1]]
                if al:
                    bad += 1
                    print(f"ALARM {case['name']}: " + " ".join(f"{p}(rc={res[p][0]})" for p in al))
                elif un:
                    print(f"undecided {case['name']}: {' '.join(un)}")
            if a.v:
                print("   " + "\n   ".join(x for x in out.splitlines() if " 0 undecided, 0 violated" not in x))
    print(f"{len(jobs)} edits, {bad} problems")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
