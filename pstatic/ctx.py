"""Obligations, reports and evidence of one check."""
from __future__ import annotations

import ast
import json
import os
import re
import time

from .engine import AnalysisError, Limit, Program, analyse

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "known_findings.txt")


def known_findings():
    """[(kind, property, construct key, text)] of the committed known-findings file."""
    out = []
    try:
        with open(KNOWN) as fh:
            for line in fh:
                line = line.strip()
                if not line or line.startswith("#"):
                    continue
                m = re.match(r"(finding|fixed): property=(\S+) (\S+) (.*)$", line)
                if m:
                    out.append(m.groups())
    except FileNotFoundError:
        pass
    return out


class Ctx:
    def __init__(self, prop, prog, tier="quick"):
        self.prop, self.prog, self.tier = prop, prog, tier
        self.t0 = time.time()
        self.obs = []                # (status, rule, construct, where, text)
        self.functions = set()
        self.rules = {}
        self.neffects = 0
        self.cache = {}
        self.notes = []
        self.all = None
        self.root_runs = None

    # -- obligations
    def _add(self, status, rule, construct, where, text):
        o = (status, rule, construct, where, text)
        if o not in self.obs:
            self.obs.append(o)

    def ok(self, rule, construct, where="", text=""):
        self._add("ok", rule, construct, where, text)

    def bad(self, rule, construct, where, text):
        self._add("bad", rule, construct, where, text)

    def und(self, rule, construct, where, text):
        self._add("undecided", rule, construct, where, text)

    def decide(self, verdict, rule, construct, where, text):
        """verdict: True / False / None (not decided)"""
        (self.ok if verdict is True else self.bad if verdict is False else self.und)(rule, construct, where, text)

    # -- analyses
    def run(self, qual, opaque=(), **kw):
        key = (qual, tuple(sorted(opaque)), tuple(sorted((k, str(v)) for k, v in kw.items())))
        if key not in self.cache:
            fn = self.prog.fn(qual)
            r = analyse(self.prog, fn, opaque=opaque, **kw)
            self.note_run(r)
            self.cache[key] = r
        return self.cache[key]

    def run_fn(self, fn):
        key = ("fn", fn.node)
        if key not in self.cache:
            for r in self.everything():
                self.cache.setdefault(("fn", r.fn.node), r)
        if key not in self.cache:
            self.cache[key] = analyse(self.prog, fn)
            self.note_run(self.cache[key])
        return self.cache[key]

    def everything(self):
        """Results of analysing every function, method, closure and lambda of the package, each as an entry of its own."""
        if self.all is None:
            self.all = []
            done = set()
            while True:
                todo = [f for n, f in self.prog.fns.items() if n not in done]
                if not todo:
                    break
                todo.sort(key=lambda f: f.frame is not None)
                for f in todo:
                    done.add(f.node)
                    f = self.prog.fns[f.node]
                    if f.cls is not None and f.name == "__new__" and self.prog.is_node(f.cls) or f.qual == "protosym.core.tree.Tree.atom":
                        r = analyse(self.prog, f, intrinsic_nodes=False)
                    else:
                        r = analyse(self.prog, f)
                    self.note_run(r)
                    self.all.append(r)
        return self.all

    def roots(self):
        """Like everything(), without the private helpers all of whose uses are calls that were followed into:
        what they do is seen from their callers, with the arguments they are really given."""
        if self.root_runs is None:
            runs = self.everything()
            private = {r.fn.node for r in runs if r.fn.name.startswith("_") and not r.fn.name.endswith("__")
                       and isinstance(r.fn.node, ast.FunctionDef) and (r.fn.cls is not None or r.fn.frame is None)}
            names = {n.name for n in private}
            sites, other = {}, set()
            for m in self.prog.modules.values():
                funcs = {id(n.func): n for n in ast.walk(m.tree) if isinstance(n, ast.Call)}
                for n in ast.walk(m.tree):
                    name = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else n.value if isinstance(n, ast.Constant) and isinstance(n.value, str) else None
                    if name not in names:
                        continue
                    if id(n) in funcs:
                        sites.setdefault(name, set()).add(funcs[id(n)])
                    else:
                        other.add(name)
            calls = {}      # call -> the functions it was followed into
            for r in runs:
                for _, f, node, *_ in r.it.calls:
                    if f.op == "fn":
                        calls.setdefault(node, set()).add(f.args[0].node)
            private = {n for n in private if n.name not in other and n.name in sites and all(calls.get(c) for c in sites[n.name])}
            followed = {f.args[0].node for r in runs if r.fn.node not in private for _, f, *_ in r.it.calls if f.op == "fn"}
            self.root_runs = [r for r in runs if not (r.fn.node in private and r.fn.node in followed)]
        return self.root_runs

    def note_run(self, r):
        if r.fn is not None:
            self.functions.add(r.fn.qual)
        for c in r.it.calls:
            if c[1].op == "fn":
                self.functions.add(c[1].args[0].qual)
        self.neffects += len(r.effects)

    # -- ending
    def finish(self, level="other", explanation="", assumptions=(), replay_dir=None, seed=1):
        known = [k for k in known_findings() if k[1] == self.prop and k[0] == "finding"]
        bad, shown = [], []
        for s, rule, construct, where, text in self.obs:
            if s != "bad":
                continue
            key = f"{rule}|{construct}"
            hit = [k for k in known if k[2] == key.replace(" ", "_")]
            if hit:
                if hit[0] not in shown:
                    shown.append(hit[0])
            else:
                bad.append((rule, construct, where, text))
        und = [o for o in self.obs if o[0] == "undecided"]
        okn = [o for o in self.obs if o[0] == "ok"]
        rules = {}
        for s, rule, *_ in self.obs:
            d = rules.setdefault(rule, {"obligations": 0, "discharged": 0, "undecided": 0, "violated": 0})
            d["obligations"] += 1
            d[{"ok": "discharged", "bad": "violated", "undecided": "undecided"}[s]] += 1
        ev = {
            "property": self.prop, "tier": self.tier, "seed": seed, "level": level,
            "coverage": {
                "explanation": explanation,
                "obligations": len(self.obs), "discharged": len(okn),
                "undecided": [{"rule": o[1], "construct": o[2], "where": o[3], "text": o[4]} for o in und],
                "known_findings": [k[2] for k in shown],
                "modules": len(self.prog.modules),
                "functions_analysed": sorted(self.functions),
                "effects_examined": self.neffects,
                "rules": rules,
                "samples": [{"rule": o[1], "construct": o[2], "where": o[3], "text": o[4]} for o in okn[:40]],
                "notes": self.notes,
            },
            "assumptions": list(assumptions),
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(bad),
        }
        d = replay_dir or os.path.join(HERE, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
            fh.write("\n")
        for k in shown:
            print(f"KNOWN-FINDING: property={self.prop} {k[3]}")
        for o in und:
            print(f"UNDECIDED property={self.prop} rule={o[1]} construct={o[2]} at {o[3]}: {o[4]}")
        print(f"{self.prop}: {len(okn)} obligations discharged, {len(und)} undecided, {len(bad)} violated; "
              f"{len(self.functions)} functions, {self.neffects} effects, {ev['wall_s']} s")
        if bad:
            rp = os.path.join(d, self.prop + ".report.txt")
            with open(rp, "w") as fh:
                for rule, construct, where, text in bad:
                    fh.write(f"rule {rule}\n  construct: {construct}\n  at: {where}\n  {text}\n\n")
            for rule, construct, where, text in bad:
                print(f"  {where}: [{rule}] {construct}: {text}")
            print(f"VIOLATION property={self.prop} replay={os.path.relpath(rp, HERE)}")
            return 1
        return 0
