"""Exploration engine.

A property module enumerates scenarios (finite, simplest first); every scenario drives the real library code and
compares every step with a reference model through a Ctx.  Scenarios are handed to forked workers in order; the
violation with the lowest scenario index is reported, with a replay file.
"""
import hashlib
import io
import json
import math
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
from contextlib import contextmanager, redirect_stderr, redirect_stdout
from pathlib import Path

import numpy as np

SCRATCH = Path(os.environ.get("MC_SCRATCH", "/tmp"))
EVID = Path(os.environ.get("MC_EVIDENCE", "/verif/evidence"))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
VERIF = Path(__file__).resolve().parent.parent


class Violation(Exception):
    """key identifies the failing site/history (matched against the known-findings file)."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


def fast_hash(*parts):
    h = hashlib.blake2b(digest_size=8)
    for p in parts:
        if isinstance(p, np.ndarray):
            h.update(str((p.shape, p.dtype.str)).encode())
            h.update(np.ascontiguousarray(p).tobytes())
        elif isinstance(p, bytes):
            h.update(p)
        else:
            h.update(repr(p).encode())
    return int.from_bytes(h.digest(), "little")


class Ctx:
    def __init__(self, scratch=None):
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.counts = {}
        self.known = {}
        self.knowns = []
        self.scratch = scratch

    # -- counting ---------------------------------------------------------
    def state(self, *parts):
        """A state reached on the real code (observable part, hashed)."""
        self.states.add(fast_hash(*parts))

    def step(self, n=1):
        """n transitions executed on the real code and compared with the model."""
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, *o):
        self.outcomes.add(fast_hash(*o))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    # -- deciding ---------------------------------------------------------
    def check(self, cond, msg, key=None):
        self.evaluations += 1
        if not cond:
            raise Violation(msg() if callable(msg) else msg, key)

    def same(self, got, want, what, rtol=1e-9, atol=None, key=None):
        """got equals want: same shape, NaN where NaN, within rtol of the largest magnitude involved."""
        self.evaluations += 1
        g = np.asarray(got)
        w = np.asarray(want)
        if g.shape != w.shape:
            raise Violation(f"{what}: shape {g.shape}, expected {w.shape}", key)
        if g.size == 0:
            return
        g = g.astype(float)
        w = w.astype(float)
        if np.array_equal(g, w):
            return
        fin = np.isfinite(w)
        bad = ~fin & ~((g == w) | (np.isnan(g) & np.isnan(w)))
        if fin.any():
            scale = np.max(np.abs(w[fin]))
            tol = rtol * scale if atol is None else atol
            with np.errstate(all="ignore"):
                bad |= fin & ~(np.abs(g - w) <= tol)
        if bad.any():
            idx = tuple(int(v) for v in np.argwhere(bad)[0])
            raise Violation(
                f"{what}: {int(bad.sum())} of {g.size} values differ, first at {list(idx)}: got {g[idx]!r}, expected {w[idx]!r}", key)

    def exact(self, got, want, what, key=None):
        self.same(got, want, what, rtol=0.0, atol=0.0, key=key)

    def raises(self, exc, fn, what, key=None):
        self.evaluations += 1
        try:
            fn()
        except exc:
            return
        except Exception as e:  # noqa
            raise Violation(f"{what}: raised {type(e).__name__}({e}) instead of {exc.__name__}", key)
        raise Violation(f"{what}: accepted, expected {exc.__name__}", key)


_DEVNULL = None


@contextmanager
def quiet():
    """Silences progress bars and prints of the library."""
    global _DEVNULL
    if _DEVNULL is None:
        _DEVNULL = open(os.devnull, "w")
    with redirect_stdout(_DEVNULL), redirect_stderr(_DEVNULL):
        yield


def _describe(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = ""
    for fr in reversed(tb):
        if "micropolarray" in fr.filename:
            where = f" at {Path(fr.filename).name}:{fr.lineno} in {fr.name}"
            break
    return f"{type(e).__name__}: {e}{where}"


def run_one(mod, scn, ctx):
    """Returns None or (message, key)."""
    try:
        with quiet():
            mod.run(scn, ctx)
    except Violation as v:
        return str(v), v.key
    except (KeyboardInterrupt,):
        raise
    except BaseException as e:  # SystemExit included: a library must not end the process
        if os.environ.get("MC_DEBUG"):
            traceback.print_exc(file=sys.__stderr__)
        return f"unexpected {_describe(e)}", None
    return None


def _worker(mod, wid, shared, out_path):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    counter, stop_at, cur, since = shared
    scratch = SCRATCH / f"w{wid}"
    scratch.mkdir(exist_ok=True)
    os.chdir(scratch)
    ctx = Ctx(scratch)
    samples = []
    found = None
    gen = enumerate(mod.scenarios(TIER, SEED))
    done = 0
    claimed = -1
    try:
        while True:
            with counter.get_lock():
                claimed = counter.value
                counter.value += 1
            scn = None
            for i, s in gen:
                if i == claimed:
                    scn = s
                    break
            else:
                break
            if claimed > stop_at.value:
                break
            cur[wid] = claimed
            since[wid] = time.time()
            res = run_one(mod, scn, ctx)
            cur[wid] = -1
            done += 1
            if len(samples) < 2:
                samples.append(scn)
            if res is not None:
                found = dict(index=claimed, scenario=scn, message=res[0], key=res[1])
                with stop_at.get_lock():
                    stop_at.value = min(stop_at.value, claimed)
                break
    finally:
        payload = dict(done=done, found=found, transitions=ctx.transitions, traces=ctx.traces, evaluations=ctx.evaluations,
                       counts=ctx.counts, samples=samples, known=ctx.knowns)
        np.save(str(out_path) + ".states.npy", np.fromiter(ctx.states, dtype=np.uint64, count=len(ctx.states)))
        np.save(str(out_path) + ".outc.npy", np.fromiter(ctx.outcomes, dtype=np.uint64, count=len(ctx.outcomes)))
        with open(str(out_path) + ".json", "w") as f:
            json.dump(payload, f)
    sys.stdout.flush()
    os._exit(0)


def load_known(pid):
    """known_findings.txt: 'known: property=<id> key=<key> <what>' lines suppress exactly that key."""
    res = {}
    p = VERIF / "known_findings.txt"
    if p.exists():
        for line in p.read_text().splitlines():
            if line.startswith("known: "):
                parts = line.split(None, 3)
                if parts[1] == f"property={pid}" and parts[2].startswith("key="):
                    res[parts[2][4:]] = parts[3] if len(parts) > 3 else ""
    return res


def explore(mod):
    pid = mod.ID
    t0 = time.time()
    if hasattr(mod, "warmup"):
        with quiet():
            try:
                mod.warmup()
            except Exception as e:  # the scenarios will show what is wrong
                if os.environ.get("MC_DEBUG"):
                    traceback.print_exc(file=sys.__stderr__)
    nw = int(os.environ.get("MC_WORKERS", "8"))
    nw = min(nw, getattr(mod, "MAX_WORKERS", nw))
    limit = getattr(mod, "TIME_LIMIT", 180.0)
    counter = mp.Value("q", 0)
    stop_at = mp.Value("q", 1 << 60)
    cur = mp.Array("q", [-1] * nw, lock=False)
    since = mp.Array("d", [0.0] * nw, lock=False)
    procs = []
    outs = []
    deaths = []
    pctx = mp.get_context("fork")

    def start(wid, gen=0):
        out = SCRATCH / f"out{wid}_{gen}"
        p = pctx.Process(target=_worker, args=(mod, wid, (counter, stop_at, cur, since), out), daemon=False)
        p.start()
        outs.append(out)
        return p

    for w in range(nw):
        procs.append(start(w))
    alive = set(range(nw))
    while alive:
        time.sleep(0.02)
        for w in list(alive):
            p = procs[w]
            if not p.is_alive():
                alive.discard(w)
                if p.exitcode != 0 or not Path(str(outs[w]) + ".json").exists():
                    deaths.append((int(cur[w]), f"the process running the library died (exit status {p.exitcode})"))
                    stop_at.value = min(stop_at.value, max(int(cur[w]), 0))
            elif cur[w] >= 0 and time.time() - since[w] > limit:
                idx = int(cur[w])
                if idx >= 0:
                    deaths.append((idx, f"no result after {limit:.0f} s: the library does not terminate"))
                    stop_at.value = min(stop_at.value, idx)
                    os.kill(p.pid, signal.SIGKILL)
                    p.join()
                    alive.discard(w)
    agg = dict(done=0, transitions=0, traces=0, evaluations=0, counts={}, samples=[], known=[])
    founds = []
    st, oc = [], []
    for out in outs:
        try:
            d = json.load(open(str(out) + ".json"))
        except Exception:
            continue
        for k in ("done", "transitions", "traces", "evaluations"):
            agg[k] += d[k]
        for k, v in d["counts"].items():
            agg["counts"][k] = agg["counts"].get(k, 0) + v
        agg["samples"] += d["samples"]
        agg["known"] += d["known"]
        if d["found"]:
            founds.append(d["found"])
        st.append(np.load(str(out) + ".states.npy"))
        oc.append(np.load(str(out) + ".outc.npy"))
    for idx, msg in deaths:
        scn = None
        if idx >= 0:
            for i, s in enumerate(mod.scenarios(TIER, SEED)):
                if i == idx:
                    scn = s
                    break
        founds.append(dict(index=idx, scenario=scn, message=msg, key=None))
    nstates = int(np.unique(np.concatenate(st)).size) if st else 0
    noutc = int(np.unique(np.concatenate(oc)).size) if oc else 0
    founds.sort(key=lambda d: d["index"])
    wall = time.time() - t0
    viol = None
    if founds:
        viol = founds[0]
    level = getattr(mod, "LEVEL", "model_checking")
    cov = dict(
        bounds=mod.BOUNDS if isinstance(mod.BOUNDS, str) else mod.BOUNDS[TIER],
        scenarios=agg["done"],
        evaluations=agg["evaluations"],
        exhaustive=viol is None,
        samples=agg["samples"][:6] if agg["samples"] else ["none completed"],
        explored=agg["counts"],
    )
    if level == "model_checking":
        cov.update(states=nstates, transitions=agg["transitions"], traces_validated_against_impl=agg["traces"],
                   distinct_outcomes=noutc)
    else:
        cov.update(distinct_nontrivial=nstates, rule=mod.RULE, executions=agg["traces"], transitions=agg["transitions"],
                   distinct_outcomes=noutc)
    ev = dict(property=pid, tier="thorough" if THOROUGH else "quick", seed=SEED, level=level, coverage=cov,
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(wall, 2), violations=1 if viol else 0)
    rc = 0
    replay = None
    if viol:
        rdir = EVID / "replay"
        rdir.mkdir(parents=True, exist_ok=True)
        replay = rdir / f"{pid}.json"
        json.dump(dict(property=pid, tier=TIER, seed=SEED, **viol), open(replay, "w"), indent=1)
        cov["violation"] = dict(scenario=viol["scenario"], message=viol["message"])
        rc = 1
    EVID.mkdir(parents=True, exist_ok=True)
    tmp = EVID / f".{pid}.tmp"
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, EVID / f"{pid}.json")
    print(f"{pid}: {agg['done']} scenarios, {nstates} states, {agg['transitions']} transitions, {agg['traces']} traces, "
          f"{agg['evaluations']} checks, {noutc} outcomes, {wall:.1f} s {agg['counts'] or ''}")
    if viol:
        print(f"  scenario {viol['index']}: {json.dumps(viol['scenario'])[:2000]}")
        print(f"  {viol['message'][:3000]}")
        print(f"VIOLATION property={pid} replay={replay}")
    sys.stdout.flush()
    return rc


def replay(mod, path):
    d = json.load(open(path))
    if hasattr(mod, "warmup"):
        with quiet():
            mod.warmup()
    sc = SCRATCH / "replay"
    sc.mkdir(exist_ok=True)
    os.chdir(sc)
    res = run_one(mod, d["scenario"], Ctx(sc))
    if res is None:
        print("not reproduced: the scenario passes")
        return 0
    print(f"reproduced: {res[0]}")
    print(f"VIOLATION property={mod.ID} replay={path}")
    return 1
