"""Controlled scheduler for the calibration's worker pool: every distribution of the parts over workers, every order within each
worker and every completion order is run through the real splitting, computing and merging code."""
import functools
import itertools
import multiprocessing
import os
import pickle
from contextlib import contextmanager

import numpy as np
import micropolarray as ml
from mc import calib, ref
from mc.core import Violation

BOUNDS = {
    "quick": "every process grid 1..7 x 1..7 (lists and tuples) on 5 frame shapes, with masked, dead and differently responding superpixels, dark and "
             "flat; every schedule of 2, 3, 4 and 5 parts: all partitions into worker sequences (3, 13, 73, 501) and, if results are collected as "
             "they complete, all completion orders",
    "thorough": "also the 4051 schedules of 6 parts and grids up to 12 x 12 on 8 shapes; real pools",
}
ASSUMPTIONS = ["the pool hands parts to workers as multiprocessing.Pool does: workers are forks of the caller, run parts one after the other and "
               "return pickled results"]
TIME_LIMIT = 400.0


# ------------------------------------------------------------ scheduler
def sequences(n):
    """All partitions of n tasks into unlabelled workers' ordered sequences."""
    if n == 0:
        yield []
        return
    for p in sequences(n - 1):
        for k in range(len(p)):
            for pos in range(len(p[k]) + 1):
                yield p[:k] + [p[k][:pos] + [n - 1] + p[k][pos:]] + p[k + 1:]
        yield p + [[n - 1]]


def completions(parts):
    """All interleavings of the workers' sequences."""
    if not any(parts):
        yield []
        return
    for k, p in enumerate(parts):
        if p:
            for rest in completions(parts[:k] + [p[1:]] + parts[k + 1:]):
                yield [p[0]] + rest


class Schedule:
    current = None

    def __init__(self, parts=None, completion=None):
        self.parts, self.completion = parts, completion
        self.used = 0
        self.unordered = False
        self.ntasks = 0
        self.memo = None  # results of an earlier run on the same input


class ScheduledPool:
    """Runs tasks in forked children following Schedule.current."""

    def __init__(self, processes=None, initializer=None, initargs=(), *a, **kw):
        self.init = (initializer, initargs)
        self.pending = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    terminate = close

    def join(self):
        self.flush()

    def _run(self, fn, argtuples):
        """({task: (done, value or exception)}, order of completion)"""
        s = Schedule.current
        s.used += 1
        if s.memo is not None and s.used in s.memo:
            return s.memo[s.used]
        tasks = [pickle.loads(pickle.dumps(a)) for a in argtuples]
        n = s.ntasks = len(tasks)
        parts = s.parts if s.parts is not None and sum(map(len, s.parts)) == n else [[k] for k in reversed(range(n))]
        results = {}
        for seq in parts:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    if self.init[0]:
                        self.init[0](*self.init[1])
                    out = []
                    for k in seq:
                        try:
                            out.append((k, True, fn(*tasks[k])))
                        except BaseException as e:  # noqa
                            out.append((k, False, RuntimeError(repr(e))))
                    with os.fdopen(w, "wb") as f:
                        pickle.dump(out, f)
                finally:
                    os._exit(0)
            os.close(w)
            with os.fdopen(r, "rb") as f:
                out = pickle.load(f)
            os.waitpid(pid, 0)
            for k, ok, v in out:
                results[k] = (ok, v)
        order = s.completion if s.completion is not None and len(s.completion) == n else [k for p in parts for k in p]
        if s.memo is not None:
            s.memo[s.used] = (results, order)
        return results, order

    def _go(self, fn, argtuples):
        results, order = self._run(fn, argtuples)
        for k in order:
            if not results[k][0]:
                raise results[k][1]
        return {k: v for k, (_, v) in results.items()}, order

    def starmap(self, fn, it, chunksize=None):
        r, _ = self._go(fn, list(it))
        return [r[k] for k in range(len(r))]

    def map(self, fn, it, chunksize=None):
        return self.starmap(fn, [(a,) for a in it])

    def imap(self, fn, it, chunksize=None):
        return iter(self.map(fn, it))

    def imap_unordered(self, fn, it, chunksize=None):
        Schedule.current.unordered = True
        r, order = self._go(fn, [(a,) for a in it])
        return iter([r[k] for k in order])

    def starmap_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        try:
            v = (True, self.starmap(fn, it))
        except Exception as e:
            v = (False, e)
        return Later(self, v, callback, error_callback).deliver()

    def map_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        return self.starmap_async(fn, [(a,) for a in it], chunksize, callback, error_callback)

    def apply(self, fn, args=(), kwds=None):
        return fn(*args, **(kwds or {}))

    def apply_async(self, fn, args=(), kwds=None, callback=None, error_callback=None):
        """Handed to the workers together with the others when the first result is waited for."""
        res = Later(self, None, callback, error_callback)
        self.pending.append((res, (fn, tuple(args), dict(kwds or {}))))
        return res

    def flush(self):
        todo, self.pending = self.pending, []
        if not todo:
            return
        results, order = self._run(call, [t for _, t in todo])
        for k in order:
            todo[k][0].v = results[k]
            todo[k][0].deliver()


def call(fn, args, kwds):
    return fn(*args, **kwds)


class Later:
    def __init__(self, pool, v, callback, error_callback):
        self.pool, self.v, self.cb = pool, v, {True: callback, False: error_callback}

    def deliver(self):
        if self.cb[self.v[0]]:
            self.cb[self.v[0]](self.v[1])
        return self

    def wait(self, timeout=None):
        if self.v is None:
            self.pool.flush()

    def get(self, timeout=None):
        self.wait()
        if not self.v[0]:
            raise self.v[1]
        return self.v[1]

    def ready(self):
        self.wait()
        return True

    def successful(self):
        self.wait()
        return self.v[0]


@contextmanager
def scheduled(s):
    old = multiprocessing.Pool
    Schedule.current = s
    multiprocessing.Pool = ScheduledPool
    try:
        yield s
    finally:
        multiprocessing.Pool = old


# ------------------------------------------------------------ scenarios
def scenarios(tier, seed):
    q = tier == "quick"
    g = 7 if q else 12
    shapes = [(4, 4), (8, 8), (8, 12), (12, 4), (6, 10)] + ([] if q else [(16, 8), (24, 12), (2, 24)])
    for h, w in shapes:
        for gy in range(1, g + 1):
            yield dict(t="grids", h=h, w=w, gy=gy, gmax=g, salt=seed)
    for gy, gx in [(1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (1, 4), (4, 1), (1, 5), (5, 1)] + ([] if q else [(2, 3), (3, 2)]):
        n = gy * gx
        m = sum(1 for _ in sequences(n))
        for lo in range(0, m, 12):
            yield dict(t="sched", gy=gy, gx=gx, lo=lo, hi=min(m, lo + 12))
    for gy, gx in [(2, 2), (2, 1)]:
        yield dict(t="real", gy=gy, gx=gx)


def setup(h, w, salt, scratch, rich=True):
    ph = [0, 45, -45, 90]
    ang = [45, 0, 90, -45, 10]
    sen = calib.Sensor(h, w, ph, salt=salt)
    S = 4000 + ref.code(h, w) / 2
    frames = [sen.frame(S, a) for a in ang]
    kw = dict(normalizing_S=S)
    if rich:
        # a dead pixel, and an occulter in a corner
        dead = (0, w - 1)
        for f in frames:
            f[dead] = 0.0
        if min(h, w) >= 6:
            kw["occulter"] = [h - 2, 2, 3]
    files = calib.write_frames(scratch / "in", frames)
    return ang, files, ph, kw


_ref = {}


def reference(h, w, salt, scratch):
    key = (h, w, salt)
    if key not in _ref:
        ang, files, ph, kw = setup(h, w, salt, scratch)
        out = calib.fresh(scratch / "ref")
        calib.calibrate(ang, files, ph, out, **kw)
        _ref[key] = calib.load_all(out)
        calib.fresh(out)
    return _ref[key]


def compare(ctx, want, out, what):
    got = calib.load_all(out)
    ctx.check(set(got) == set(want), f"{what}: files {sorted(set(got) ^ set(want))} differ")
    for k in want:
        ctx.same(got[k], want[k], f"{what}: {k}", rtol=1e-7)
    d = ml.Demodulator(str(out))
    for i in range(3):
        for j in range(4):
            ctx.same(d.mij[i, j], want[f"M{i}{j}.fits"], f"{what}: loaded matrix element {i}{j}", rtol=1e-7)


def run(s, ctx):
    globals()["run_" + s["t"]](s, ctx)


def run_grids(s, ctx):
    h, w, gy = s["h"], s["w"], s["gy"]
    want = reference(h, w, s["salt"], ctx.scratch)
    ang, files, ph, kw = setup(h, w, s["salt"], ctx.scratch)
    for gx in range(1, s["gmax"] + 1):
        grid = [gy, gx]
        what = f"{h}x{w} calibration on a {gy}x{gx} process grid"
        out = calib.fresh(ctx.scratch / "out")
        fits_ = h % (2 * gy) == 0 and w % (2 * gx) == 0
        with scheduled(Schedule()) as sch:
            fn = lambda g=grid: calib.calibrate(ang, files, ph, out, procs_grid=g, **kw)
            if not fits_:
                ctx.raises(ValueError, fn, what)
                ctx.check(not any(f.startswith("M") for f in os.listdir(out)) if os.path.isdir(out) else True, f"{what}: matrices written")
            else:
                try:
                    fn()
                except ValueError as e:
                    raise Violation(f"{what}: rejected although it divides ({e})")
                compare(ctx, want, out, what)
                if (gy, gx) == (2, 2):
                    calib.fresh(out)
                    calib.calibrate(ang, files, ph, out, procs_grid=(gy, gx), **kw)
                    compare(ctx, want, out, what + " given as a tuple")
        ctx.count("scheduled pools", sch.used)
        ctx.step()
        ctx.state(h, w, gy, gx)
        ctx.outcome(fits_)
    ctx.trace()


def run_sched(s, ctx):
    gy, gx = s["gy"], s["gx"]
    h, w = 2 * gy, 2 * gx
    want = reference(h, w, 3, ctx.scratch)
    ang, files, ph, kw = setup(h, w, 3, ctx.scratch)
    for parts in itertools.islice(sequences(gy * gx), s["lo"], s["hi"]):
        out = calib.fresh(ctx.scratch / "out")
        with scheduled(Schedule(parts)) as sch:
            calib.calibrate(ang, files, ph, out, procs_grid=[gy, gx], **kw)
        compare(ctx, want, out, f"{gy}x{gx} grid, parts run by workers as {parts}")
        ctx.step(gy * gx)
        ctx.trace()
        ctx.state("sched", gy, gx, parts)
        ctx.count("schedules")
        if sch.unordered:
            for comp in completions([list(p) for p in parts]):
                calib.fresh(out)
                with scheduled(Schedule(parts, comp)):
                    calib.calibrate(ang, files, ph, out, procs_grid=[gy, gx], **kw)
                compare(ctx, want, out, f"{gy}x{gx} grid, parts run by workers as {parts}, completed in order {comp}")
                ctx.count("completion orders")
                ctx.trace()


def run_real(s, ctx):
    h, w = 8, 8
    want = reference(h, w, 5, ctx.scratch)
    ang, files, ph, kw = setup(h, w, 5, ctx.scratch)
    out = calib.fresh(ctx.scratch / "out")
    calib.calibrate(ang, files, ph, out, procs_grid=[s["gy"], s["gx"]], **kw)
    compare(ctx, want, out, f"{s['gy']}x{s['gx']} grid with real worker processes")
    ctx.count("real pools")
    ctx.step()
    ctx.trace()
