"""Fault enumeration on the real calibration: every part of every process grid failing, every unreadable input, failing numerics."""
import itertools
import os
import shutil

import numpy as np
import micropolarray as ml
from mc import calib, ref
from mc.core import Violation
from mc.props import c14

LEVEL = "fault_enumeration"
RULE = ("a fault counts as distinct when its combination of process grid, failing part or input, kind of failure, moment and previous folder "
        "content is, and only if the injected failure was reached by the real calibration")
BOUNDS = {
    "quick": "process grids up to 6 parts: every part x 7 exception types x before/after computing x empty, absent or already calibrated output "
             "folder; every pair of failing parts; real worker pools with invalid fit boundaries; every frame, dark and flat file missing, "
             "damaged or of another size; every subset of 6 polarizer orientations lacking the required ones; the n-th pseudo-inverse failing",
    "thorough": "grids up to 16 parts, every pair of failing parts on each",
}
ASSUMPTIONS = ["workers report failures as multiprocessing.Pool does: the exception is re-raised in the caller"]
TIME_LIMIT = 400.0
EXC = [ValueError, MemoryError, OSError, np.linalg.LinAlgError, KeyError, ZeroDivisionError, RuntimeError]
ANG = [45, 0, 90, -45, 10]
GRIDS = [(1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2)]
GRIDS2 = [(1, 4), (4, 1), (3, 3), (4, 2), (4, 4)]
PH = [0, 45, -45, 90]


class FailingPool(c14.ScheduledPool):
    """fail: {part: (exception type, before)}"""
    fail = {}
    reached = 0
    seen = 0

    def _run(self, fn, argtuples):
        argtuples = list(argtuples)
        base = FailingPool.seen
        FailingPool.seen += len(argtuples)
        mine = {k - base: v for k, v in FailingPool.fail.items() if 0 <= k - base < len(argtuples)}
        FailingPool.reached += len(mine)
        if mine and all(before for _, before in mine.values()) and len(mine) == len(argtuples):
            return {k: (False, exc("injected failure")) for k, (exc, _) in mine.items()}, list(mine)
        results, order = super()._run(fn, argtuples)
        return {k: (False, mine[k][0]("injected failure")) if k in mine else v for k, v in results.items()}, order


def scenarios(tier, seed):
    q = tier == "quick"
    for g in GRIDS + ([] if q else GRIDS2):
        n = g[0] * g[1]
        for k in range(n):
            yield dict(t="part", grid=list(g), parts=[k])
        for a, b in itertools.combinations(range(n), 2):
            if not q or n <= 4:
                yield dict(t="part", grid=list(g), parts=[a, b])
    for g in ([1, 1], [1, 2], [2, 2]):
        yield dict(t="bounds", grid=g)
    for k in range(len(ANG) + 2):
        yield dict(t="input", k=k)
    yield dict(t="angles")
    for n in range(1, 8):
        yield dict(t="pinv", n=n)


def snapshot(folder):
    res = {}
    for root, _, names in os.walk(folder):
        for n in names:
            p = os.path.join(root, n)
            res[os.path.relpath(p, folder)] = open(p, "rb").read()
    return res


_old = {}


def prepare(ctx, prior, h=6, w=6):
    """Output folder in its previous state; returns (path, snapshot or None)."""
    out = calib.fresh(ctx.scratch / "out")
    if prior == "empty":
        os.makedirs(out)
    elif prior == "calibrated":
        if (h, w) not in _old:
            sen = calib.Sensor(h, w, PH, salt=9)
            files = calib.write_frames(ctx.scratch / "oldin", [sen.frame(4000.0, a) for a in ANG])
            _old[h, w] = calib.fresh(ctx.scratch / f"old{h}x{w}")
            calib.calibrate(ANG, files, PH, _old[h, w], normalizing_S=4000.0)
        shutil.copytree(_old[h, w], out)
    return out, snapshot(out)


def judge(ctx, fn, out, before, what, required=True):
    """fn has to raise an ordinary exception and leave the folder without new matrices."""
    try:
        fn()
    except Exception as e:
        kind = type(e).__name__
    except BaseException as e:  # noqa
        raise Violation(f"{what}: the calling program is ended by {type(e).__name__}")
    else:
        if required:
            raise Violation(f"{what}: no error is reported")
        return None
    after = snapshot(out)
    if before:
        changed = [f for f in before if after.get(f) != before[f]]
        ctx.check(not changed, lambda: f"{what}: {kind} raised, but the earlier calibration changed: {sorted(changed)[:4]}")
    else:
        ctx.check(not any(os.path.basename(f).startswith("M") for f in after), lambda: f"{what}: {kind} raised, but matrices were written: {sorted(after)[:4]}")
        try:
            ml.Demodulator(str(out))
        except Exception:
            pass
        else:
            raise Violation(f"{what}: the folder of the failed calibration can be loaded")
    ctx.step()
    ctx.trace()
    ctx.outcome(kind, bool(before))
    return kind


def run(s, ctx):
    globals()["run_" + s["t"]](s, ctx)


def run_part(s, ctx):
    gy, gx = s["grid"]
    h, w = 2 * gy, 2 * gx
    sen = calib.Sensor(h, w, PH, salt=2)
    files = calib.write_frames(ctx.scratch / "in", [sen.frame(4000.0, a) for a in ANG])
    for n, exc in enumerate(EXC):
        for prior in ("absent", "empty", "calibrated"):
            before = (n + len(prior)) % 2 == 0
            out, snap = prepare(ctx, prior, h, w)
            FailingPool.fail = {k: (exc, before) for k in s["parts"]}
            FailingPool.reached = FailingPool.seen = 0
            c14.ScheduledPool, keep = FailingPool, c14.ScheduledPool
            try:
                with c14.scheduled(c14.Schedule()):
                    what = f"{gy}x{gx} process grid, part(s) {s['parts']} failing with {exc.__name__} {'before' if before else 'after'} computing, folder {prior}"
                    try:
                        judge(ctx, lambda: calib.calibrate(ANG, files, PH, out, normalizing_S=4000.0, procs_grid=[gy, gx]), out, snap, what,
                              required=True)
                    except Violation:
                        if FailingPool.reached:
                            raise
                        ctx.count("failures not reached")
                        continue
            finally:
                c14.ScheduledPool = keep
            ctx.state("part", gy, gx, s["parts"], exc.__name__, before, prior)
            ctx.count("injected worker failures")


def run_bounds(s, ctx):
    """Invalid fit boundaries make every part fail, in real worker processes."""
    sen = calib.Sensor(8, 8, PH, salt=2)
    files = calib.write_frames(ctx.scratch / "in", [sen.frame(4000.0, a) for a in ANG])
    for kw in (dict(tk_boundary=[0.5, 0.1]), dict(eff_boundary=[0.5]), dict(tk_boundary=[0.5, 0.1, 0.9, 1.0]), dict(eff_boundary=["a", 0.1, 0.9])):
        for prior in ("absent", "calibrated"):
            out, snap = prepare(ctx, prior, 8, 8)
            judge(ctx, lambda: calib.calibrate(ANG, files, PH, out, normalizing_S=4000.0, procs_grid=s["grid"], **kw), out, snap,
                  f"process grid {s['grid']}, {kw}, folder {prior}")
            ctx.state("bounds", s["grid"], list(kw.items()), prior)


def run_input(s, ctx):
    h, w = 6, 6
    sen = calib.Sensor(h, w, PH, salt=2)
    dark, flat = np.full((h, w), 40.0), 1000 + ref.code(h, w)
    for fault in ("missing", "text", "cut", "empty", "taller", "odd"):
        for grid in ([1, 1], [3, 1]):
            for prior in ("absent", "calibrated"):
                files = calib.write_frames(ctx.scratch / "in", [sen.frame(4000.0, a) + dark for a in ANG])
                df, ff = f"{ctx.scratch}/in/dark.fits", f"{ctx.scratch}/in/flat.fits"
                calib.write(df, dark)
                calib.write(ff, flat)
                p = (files + [df, ff])[s["k"]]
                content = open(p, "rb").read()
                if fault == "missing":
                    os.unlink(p)
                elif fault in ("text", "cut", "empty"):
                    open(p, "wb").write({"text": b"not a FITS file\n" * 300, "cut": content[:2880 + 100], "empty": b""}[fault])
                else:
                    calib.write(p, ref.code(h + 2, w) if fault == "taller" else ref.code(h + 1, w))
                out, snap = prepare(ctx, prior, h, w)
                with c14.scheduled(c14.Schedule()):
                    judge(ctx, lambda: calib.calibrate(ANG, files, PH, out, normalizing_S=4000.0, procs_grid=grid, dark_filename=df, flat_filename=ff),
                          out, snap, f"{os.path.basename(p)} {fault}, process grid {grid}, folder {prior}")
                ctx.state("input", s["k"], fault, grid, prior)


def run_angles(s, ctx):
    """Automatic normalisation without the orientations it needs."""
    sen = calib.Sensor(4, 4, PH, salt=2)
    pool = [0, 45, 90, -45, 135, 30]
    for n in range(1, 7):
        for sub in itertools.combinations(pool, n):
            if {0, 45, 90} <= set(sub) and set(sub) & {-45, 135}:
                continue
            files = calib.write_frames(ctx.scratch / "in", [sen.frame(4000.0, a) for a in sub])
            out, snap = prepare(ctx, "calibrated" if n % 2 else "absent", 4, 4)
            kind = judge(ctx, lambda: calib.calibrate(sub, files, PH, out), out, snap, f"polarizer orientations {sub} without maximum signal")
            ctx.check(kind == "ValueError", f"polarizer orientations {sub} without maximum signal: {kind} instead of ValueError")
            ctx.state("angles", sub)


def run_pinv(s, ctx):
    """The n-th pseudo-inverse does not converge: an error, or a complete calibration."""
    sen = calib.Sensor(4, 4, PH, salt=2)
    files = calib.write_frames(ctx.scratch / "in", [sen.frame(4000.0, a) for a in ANG])
    real = np.linalg.pinv
    for prior in ("absent", "calibrated"):
        out, snap = prepare(ctx, prior, 4, 4)
        calls = [0]

        def pinv(*a, **k):
            calls[0] += 1
            if calls[0] == s["n"]:
                raise np.linalg.LinAlgError("SVD did not converge")
            return real(*a, **k)
        np.linalg.pinv = pinv
        try:
            k = judge(ctx, lambda: calib.calibrate(ANG, files, PH, out, normalizing_S=4000.0), out, snap, f"pseudo-inverse {s['n']} failing, folder {prior}",
                      required=False)
        finally:
            np.linalg.pinv = real
        if k is None:  # not reached, or handled: then it has to be complete
            d = ml.Demodulator(str(out))
            ctx.check(d.mij.shape == (3, 4, 2, 2) and bool(np.isfinite(d.mij).all()), f"pseudo-inverse {s['n']} failing: incomplete calibration")
            ctx.step()
        else:
            ctx.state("pinv", s["n"], prior)
