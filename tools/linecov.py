"""Development aid: which lines of the library the checks execute.  python3 tools/linecov.py C01 C02 ... (all if none given)
Runs the quick checks with a line monitor that is switched off at the first hit of each line; compiled kernels are not seen."""
import os
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOOK = '''
import os, sys
OUT = %r
PKG = %r
hits = set()
mon = sys.monitoring
def line(code, n):
    if code.co_filename.startswith(PKG):
        hits.add((code.co_filename[len(PKG) + 1:], n))
    return mon.DISABLE
mon.use_tool_id(1, "cov")
mon.register_callback(1, mon.events.LINE, line)
mon.set_events(1, mon.events.LINE)
real = os._exit
def dump():
    with open(os.path.join(OUT, str(os.getpid())), "w") as f:
        f.writelines("%%s:%%d\\n" %% h for h in hits)
def leave(rc):
    dump()
    real(rc)
os._exit = leave
import atexit
atexit.register(dump)
'''


def main():
    repo = os.environ.get("MC_REPO", "/repo")
    ids = sys.argv[1:] or ["C%02d" % i for i in range(1, 41)]
    with tempfile.TemporaryDirectory(prefix="mccov.") as tmp:
        out = os.path.join(tmp, "out")
        os.makedirs(out)
        os.makedirs(os.path.join(tmp, "site"))
        open(os.path.join(tmp, "site", "sitecustomize.py"), "w").write(HOOK % (out, os.path.join(repo, "micropolarray")))
        sh = open(os.path.join(HERE, "check.sh")).read().replace('PYTHONPATH="${MC_REPO:-/repo}:$here"', f'PYTHONPATH="{tmp}/site:{repo}:{HERE}"')
        sh = sh.replace('here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"', f'here="{HERE}"')
        open(os.path.join(tmp, "check.sh"), "w").write(sh)
        env = dict(os.environ, MC_EVIDENCE=os.path.join(tmp, "ev"))
        for i in ids:
            r = subprocess.run(["bash", os.path.join(tmp, "check.sh"), i], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            print(i, r.returncode, r.stdout.strip().splitlines()[:1], flush=True)
        hits = set()
        for f in os.listdir(out):
            for l in open(os.path.join(out, f)):
                n, k = l.strip().rsplit(":", 1)
                hits.add((n, int(k)))
    pkg = os.path.join(repo, "micropolarray")
    for d, _, fs in sorted(os.walk(pkg)):
        for f in sorted(fs):
            if not f.endswith(".py") or "test" in f:
                continue
            p = os.path.join(d, f)
            rel = os.path.relpath(p, pkg)
            src = open(p).read()
            lines = set()

            def walk(c):
                for _, _, n in c.co_lines():
                    if n:
                        lines.add(n)
                for k in c.co_consts:
                    if hasattr(k, "co_code"):
                        walk(k)
            walk(compile(src, p, "exec"))
            miss = sorted(n for n in lines if (rel, n) not in hits)
            print(f"{rel}: {len(lines) - len(miss)} of {len(lines)}; not run: {miss}")


main()
