#!/usr/bin/env python3
"""Plants bugs: turns the blocks of tools/seeds/*.txt into seeded/<id>/ after confirming each in a scratch copy.

Block:   === ID PROPERTY / needs: ... / breaks: ... / --- FILE (relative to src/protosym) / old / >>> / new / @@@ / demo.py text
Usage:   seed.py [ID...]   (default: those without a seeded/ directory)
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
DEMO = '#!/bin/sh\nd=$(cd "$(dirname "$0")" && pwd)\nPYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 exec timeout 250 ' + PY + ' "$d/demo.py"\n'


def blocks():
    for fn in sorted(os.listdir(f"{HERE}/tools/seeds")):
        for blk in re.split(r"(?m)^=== ", open(f"{HERE}/tools/seeds/{fn}").read())[1:]:
            head, _, rest = blk.partition("\n")
            sid, prop = head.split()
            body, _, demo = rest.partition("\n@@@\n")
            needs = re.search(r"(?m)^needs: (.*)$", body).group(1)
            breaks = re.search(r"(?m)^breaks: (.*)$", body).group(1)
            edits, cur = [], None
            for part in re.split(r"(?m)^--- ", body)[1:]:
                f, _, t = part.partition("\n")
                old, _, new = t.partition("\n>>>\n")
                edits.append((f.strip(), old.strip("\n"), new.strip("\n")))
            yield sid, prop, needs, breaks, edits, demo.strip("\n") + "\n"


def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)


def main():
    want = set(sys.argv[1:])
    bad = 0
    for sid, prop, needs, breaks, edits, demo in blocks():
        out = f"{HERE}/seeded/{sid}"
        if (want and sid not in want) or (not want and os.path.exists(out)):
            continue
        work = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
        try:
            repo = f"{work}/repo"
            shutil.copytree("/repo", repo)
            dd = f"{work}/d"
            os.mkdir(dd)
            open(f"{dd}/demo.py", "w").write(demo)
            open(f"{dd}/demo.sh", "w").write(DEMO)
            r0 = run(["sh", f"{dd}/demo.sh"], repo)
            err = ""
            for f, old, new in edits:
                p = f"{repo}/src/protosym/{f}"
                s = open(p).read()
                if s.count(old) != 1:
                    err = f"old text occurs {s.count(old)} times in {f}"
                    break
                open(p, "w").write(s.replace(old, new))
            diff = run(["git", "diff"], repo).stdout
            r1 = run(["sh", f"{dd}/demo.sh"], repo)
            env = dict(os.environ, PYTHONPATH=f"{repo}/src", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
            t = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--benchmark-disable",
                     f"--benchmark-storage=file://{work}/bench", "--xdoctest", "tests", "benchmarks", "src/protosym"], repo, env=env)
            t2 = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--benchmark-disable",
                     f"--benchmark-storage=file://{work}/bench", "--xdoctest", "tests", "benchmarks", "src/protosym"], repo,
                     env=dict(env, PYTHONHASHSEED="7")) if False else t
            ok = not err and r0.returncode == 0 and r1.returncode not in (0, 124) and t.returncode == 0 and t2.returncode == 0
            print(("ok  " if ok else "BAD ") + sid, prop, err, "demo", r0.returncode, "->", r1.returncode, "tests",
                  t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr[-200:])
            if r0.returncode:
                print(r0.stderr[-400:])
            if ok:
                shutil.rmtree(out, ignore_errors=True)
                os.makedirs(out)
                open(f"{out}/patch.diff", "w").write(diff)
                shutil.copy(f"{dd}/demo.py", out)
                shutil.copy(f"{dd}/demo.sh", out)
                os.chmod(f"{out}/demo.sh", 0o755)
                json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{out}/meta.json", "w"), indent=1)
            else:
                bad += 1
                print("\n".join(t.stdout.splitlines()[-8:]) if t.returncode else "")
        finally:
            shutil.rmtree(work, ignore_errors=True)
    return bad


sys.exit(main())
