#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: the text of tools/design/*.md around sections generated from the property modules, the
known-findings file and the planted bugs, so that it cannot drift from what the checks do (run: python3 tools/mkdesign.py)."""
import ast
import glob
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(HERE, "tools", "design")


def module(pid):
    t = ast.parse(open(os.path.join(HERE, "mc", "props", pid.lower() + ".py")).read())
    d = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("BOUNDS", "ASSUMPTIONS", "RULE"):
            name = n.targets[0].id
            try:
                d[name] = ast.literal_eval(n.value)
            except ValueError:      # f-strings and names: evaluated with the module's constants
                env = {}
                for m in t.body:
                    if isinstance(m, ast.Assign):
                        try:
                            exec(compile(ast.Module([m], []), "x", "exec"), env)
                        except Exception:
                            pass
                d[name] = env.get(name)
    return d


def oracles():
    out, cur = {}, None
    for l in open(os.path.join(D, "oracles.md")):
        if l.startswith("@"):
            cur = l[1:].strip()
            out[cur] = {}
            key = None
        elif cur and ":" in l and l.split(":", 1)[0] in ("oracle", "why", "cost"):
            key, v = l.split(":", 1)
            out[cur][key] = v.strip()
        elif cur and l.strip():
            out[cur][key] += " " + l.strip()
    return out


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    man = {c["property"]: c for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]}
    orc = oracles()
    out = [open(os.path.join(D, "head.md")).read()]
    out.append("## Properties\n")
    for p in props:
        m, o = module(p["id"]), orc.get(p["id"], {})
        out.append(f"### {p['id']} — {p['title']}\n")
        out.append(f"*Decided by* {man[p['id']]['technique'].replace('model checking: ', '')} (`mc/props/{p['id'].lower()}.py`).\n")
        if m.get("RULE"):
            out.append(f"*Enumeration rule.* {m['RULE']}.\n")
        out.append(f"*Explored, quick.* {m['BOUNDS']['quick']}.\n")
        out.append(f"*Explored, thorough.* {m['BOUNDS']['thorough']}.\n")
        if m.get("ASSUMPTIONS"):
            out.append("*Assumed or left open.* " + "; ".join(m["ASSUMPTIONS"]) + ".\n")
        for k, label in (("oracle", "Oracle"), ("why", "Beyond the tests"), ("cost", "Cost")):
            if o.get(k):
                out.append(f"*{label}.* {o[k]}\n")
    out.append(open(os.path.join(D, "findings.md")).read())
    out.append("\n### Repaired in /repo\n\n| property | commit | what failed |\n|---|---|---|")
    known = []
    for l in open(os.path.join(HERE, "known_findings.txt")):
        if l.startswith("fixed:"):
            _, pid, sha, what = l.strip().split(" ", 3)
            out.append(f"| {pid.split('=')[1]} | {sha} | {what} |")
        elif l.startswith("known:"):
            known.append(l.strip())
    out.append("\nRecorded, not repaired: " + ("none.\n" if not known else "\n\n" + "\n".join("- " + k for k in known) + "\n"))
    out.append(open(os.path.join(D, "tail.md")).read())
    missed = {}
    for l in open(os.path.join(D, "missed.md")):
        if ":" in l:
            k, v = l.split(":", 1)
            missed[k.strip()] = v.strip()
    out.append("\n| change | property | needs | caught by |\n|---|---|---|---|")
    for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        m = json.load(open(d))
        i = os.path.basename(os.path.dirname(d))
        c = f"{m['property']}" + (f" (missed at first; {missed[i]})" if i in missed else "")
        out.append(f"| {i} | {m['property']} | {m['needs'].replace('|', '/')} | {c} |")
    open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")


main()
