#!/usr/bin/env python3
"""Confirms planted bugs and stores them in /verif/seeded.

usage: seed.py SPEC.py [--only ID ...] [--no-check]   (SPEC.py defines SEEDS, a list of dict(id, prop, needs, breaks, edits=[(file, old, new)], demo=source))
       seed.py --recheck [--only ID ...]              (runs each stored bug's own check against it)

Works on scratch copies of /repo under /tmp only.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

HERE = Path(__file__).resolve().parent.parent
SEEDED = HERE / "seeded"
PY = "/opt/venv/bin/python"
ENV = dict(HOME="/root", LANG="C.UTF-8", PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin", MPLBACKEND="Agg", MPLCONFIGDIR="/tmp/seedmpl", PYTHONHASHSEED="0",
           PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/tmp/seedpyc", OMP_NUM_THREADS="2")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
BASE = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]


def sh(cmd, cwd, timeout=1000, **env):
    try:
        r = subprocess.run(cmd, cwd=cwd, env={**ENV, **env}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, shell=isinstance(cmd, str))
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return 124, str(e.stdout)


def copy():
    d = Path(tempfile.mkdtemp(prefix="seedrepo.", dir="/tmp"))
    shutil.rmtree(d)
    subprocess.run(["git", "clone", "-q", "/repo", str(d)], check=True)
    return d


def edit(d, edits):
    for f, old, new in edits:
        p = d / f
        s = p.read_text()
        if s.count(old) != 1:
            return f"{f}: {s.count(old)} matches for {old!r}"
        p.write_text(s.replace(old, new))


def blame(d):
    """Removed lines which are not of the original repository."""
    bad, good = [], 0
    for f in subprocess.run(["git", "-C", d, "diff", "--name-only"], capture_output=True, text=True).stdout.split():
        bl = subprocess.run(["git", "-C", d, "blame", "-s", "-l", "HEAD", "--", f], capture_output=True, text=True).stdout.splitlines()
        diff = subprocess.run(["git", "-C", d, "diff", "-U0", "--", f], capture_output=True, text=True).stdout
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", diff, re.M):
            n = int(m.group(2) or 1)
            for k in range(int(m.group(1)), int(m.group(1)) + n):
                if bl[k - 1].lstrip("^").startswith(BASE[:30]):
                    good += 1
                else:
                    bad.append(f"{f}:{k}")
    return good, bad


def tests(d):
    xml = str(d) + ".xml"
    sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-o", "junit_family=xunit2", f"--junitxml={xml}", "tests"], d, PYTHONPATH=str(d))
    rc, out = sh([PY, "/opt/vp/results.py", xml + ".json", f"junit:{xml}"], d)
    got = set(json.load(open(xml + ".json"))["passed"])
    os.unlink(xml)
    os.unlink(xml + ".json")
    return sorted(STABLE - got)


def demo(d, folder):
    return sh(["bash", str(folder / "demo.sh")], d, timeout=290)


def check(d, prop):
    ev = tempfile.mkdtemp(prefix="seedev.", dir="/tmp")
    rc, out = sh(["./check.sh", prop], HERE, timeout=900, MC_REPO=str(d), MC_EVIDENCE=ev, MC_WORKERS=os.environ.get("MC_WORKERS", "4"), VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
    shutil.rmtree(ev)
    lines = [x for x in out.splitlines() if x.strip()]
    return rc, "VIOLATION property=" + prop in out, " | ".join(lines[-4:-1])[:300]


def plant(s):
    d = copy()
    tmp = Path(tempfile.mkdtemp(prefix="seeddemo.", dir="/tmp"))
    try:
        (tmp / "demo.sh").write_text('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        (tmp / "demo.py").write_text(HEAD + s["demo"].lstrip("\n"))
        rc, out = demo(d, tmp)
        if rc:
            return f"{s['id']}: BAD demo fails on the clean tree: {out[-600:]}"
        err = edit(d, s["edits"])
        if err:
            return f"{s['id']}: BAD edit {err}"
        good, bad = blame(d)
        if bad or not good:
            return f"{s['id']}: BAD changes lines not in the original: {bad}, original lines {good}"
        rc, out = demo(d, tmp)
        if not rc:
            return f"{s['id']}: BAD demo passes with the bug"
        last = out.strip().splitlines()[-1][:160] if out.strip() else ""
        failed = tests(d)
        if failed:
            return f"{s['id']}: BAD fails tests {failed}"
        dst = SEEDED / s["id"]
        if dst.exists():
            shutil.rmtree(dst)
        dst.mkdir(parents=True)
        patch = subprocess.run(["git", "-C", d, "diff"], capture_output=True, text=True).stdout
        (dst / "patch.diff").write_text(patch)
        for n in ("demo.sh", "demo.py"):
            shutil.copy(tmp / n, dst / n)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(dst / "meta.json", "w"), indent=1)
        if "--no-check" in sys.argv:
            return f"{s['id']}: stored ({last})"
        rc, v, msg = check(d, s["prop"])
        return f"{s['id']}: {'CAUGHT' if rc == 1 and v else 'MISSED rc=%d' % rc} [{last}] {msg}"
    except Exception as e:  # noqa
        return f"{s['id']}: BAD {type(e).__name__} {e}"
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(tmp, ignore_errors=True)


HEAD = '''import os, sys, tempfile, shutil, logging
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
import numpy as np
import micropolarray as ml
TMP = tempfile.mkdtemp()
import atexit
atexit.register(shutil.rmtree, TMP, True)

'''


def recheck(name):
    d = copy()
    try:
        r = subprocess.run(["git", "-C", d, "apply", str(SEEDED / name / "patch.diff")], capture_output=True, text=True)
        if r.returncode:
            return f"{name}: BAD does not apply: {r.stderr[:200]}"
        prop = json.load(open(SEEDED / name / "meta.json"))["property"]
        rc, v, msg = check(d, prop)
        return f"{name}: {prop} {'CAUGHT' if rc == 1 and v else 'MISSED rc=%d' % rc} {msg}"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    only = sys.argv[sys.argv.index("--only") + 1:] if "--only" in sys.argv else None
    n = int(os.environ.get("SEED_JOBS", "4"))
    if sys.argv[1] == "--recheck":
        names = sorted(p.name for p in SEEDED.iterdir() if p.is_dir() and (not only or p.name in only))
        fn, items = recheck, names
    else:
        ns = {}
        exec(open(sys.argv[1]).read(), ns)
        fn, items = plant, [s for s in ns["SEEDS"] if not only or s["id"] in only]
    with ThreadPoolExecutor(n) as ex:
        for r in ex.map(fn, items):
            print(r, flush=True)


main()
