#!/usr/bin/env python3
"""Runs every check against every planted bug in scratch copies and writes tools/seeds/caught.json (for DESIGN.md)."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IDS = [f"C{i:02d}" for i in range(1, 26)]
OUT = os.path.join(HERE, "tools", "seeds", "caught.json")


def one(sid):
    d = tempfile.mkdtemp(prefix="catch")
    try:
        root = os.path.join(d, "repo")
        os.mkdir(root)
        shutil.copytree("/repo/src", os.path.join(root, "src"))
        subprocess.run(["git", "apply", "-p1", os.path.join(HERE, "seeded", sid, "patch.diff")], cwd=root, check=True,
                       env=dict(os.environ, GIT_CEILING_DIRECTORIES=d))
        return sid, [i for i in IDS if subprocess.run([sys.executable, os.path.join(HERE, "check.py"), i, "--root", root, "--out", os.path.join(d, i)],
                                                      capture_output=True, text=True).returncode == 1]
    finally:
        shutil.rmtree(d)


sids = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, "seeded")))
res = json.load(open(OUT)) if os.path.exists(OUT) and sys.argv[1:] else {}
with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "5"))) as ex:
    for sid, got in ex.map(one, sids):
        res[sid] = got
        print(sid, json.load(open(os.path.join(HERE, "seeded", sid, "meta.json")))["property"], got, flush=True)
json.dump(res, open(OUT, "w"), indent=0, sort_keys=True)
