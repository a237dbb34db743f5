"""Exhaustive enumeration of small arrays and of instrument settings through the statistics and conversion helpers, against exact rational arithmetic."""
import itertools
import math
from fractions import Fraction as F

import numpy as np
import micropolarray as ml

BOUNDS = {
    "quick": "all arrays of 1..5 elements over 7 values (19607) x 7 numbers of deviations, every 2-d form of the arrays of 4 elements, 12 pixel types, lists, strided and reversed arrays, frames up to "
             "64x48; 60 signals of 7 types; all combinations of 12 diffuser levels x 9 x 9 exposure times",
    "thorough": "also 6 elements (117649 arrays)",
}
VALUES = (0, 1, -3, 7, 100, 4095, 2)
NS = (None, 0, 1, 2, 3, 0.5, -1)
SOLID = 1.083e-5
OPAL = 0.28
GAIN = 6.93
TYPES = ("u1", "i1", "i2", "u2", "i4", "u4", "i8", "f4", "f8", ">f8", ">i2", ">u2")


def scenarios(tier, seed):
    q = tier == "quick"
    for n in (1, 2, 3, 4):
        yield dict(t="small", n=n, first=None)
    for n in (5,) if q else (5, 6):
        for a in range(len(VALUES)):
            yield dict(t="small", n=n, first=a)
    for dt in TYPES:
        yield dict(t="typed", dt=dt, k=seed)
    yield dict(t="sigma")
    yield dict(t="sun")


def run(s, ctx):
    globals()["run_" + s["t"]](s, ctx)
    ctx.trace()


def mean_std(v):
    v = [F(x) for x in v]
    m = sum(v) / len(v)
    return float(m), math.sqrt(sum((x - m) ** 2 for x in v) / len(v))


def med(v):
    v = sorted(v)
    k = len(v) // 2
    return v[k] if len(v) % 2 else (v[k - 1] + v[k]) / 2


def median_dev(v):
    v = [F(x) for x in v]
    m = med(v)
    return float(m), float(med([abs(x - m) for x in v]))


def call(fn, a, n):
    return fn(a) if n is None else fn(a, n) if isinstance(n, int) else fn(a, stds_n=n)


def decide(ctx, a, vals, what, tol=1e-12):
    m, sd = mean_std(vals)
    md, dv = median_dev(vals)
    scale = max(1.0, max(abs(float(v)) for v in vals))
    for n in NS:
        k = 1 if n is None else n
        for name, want in (("mean_plus_std", m + k * sd), ("mean_minus_std", m - k * sd), ("median_plus_std", md + k * dv), ("median_minus_std", md - k * dv)):
            got = call(getattr(ml, name), a, n)
            ctx.check(np.ndim(got) == 0 and abs(float(got) - want) <= tol * scale, f"{name}({what}, {'default' if n is None else n}) = {got}, expected {want}")
            ctx.step()


def run_small(s, ctx):
    n = s["n"]
    for rest in itertools.product(VALUES, repeat=n if s["first"] is None else n - 1):
        vals = rest if s["first"] is None else (VALUES[s["first"]],) + rest
        a = np.array(vals, float)
        decide(ctx, a, vals, str(list(vals)))
        ctx.check(a.tolist() == list(vals), f"{list(vals)}: the array is changed")
        if n == 4:
            decide(ctx, a.reshape(2, 2), vals, f"{[list(vals[:2]), list(vals[2:])]}")
            decide(ctx, np.repeat(a, 2)[::2], vals, f"strided {list(vals)}")
            decide(ctx, a[::-1], vals, f"reversed {list(vals)}")
        ctx.state(vals)
        ctx.outcome(mean_std(vals), median_dev(vals))


def run_typed(s, ctx):
    t = np.dtype(s["dt"])
    for shape in ((4,), (3, 5), (64, 48), (2, 3, 4)):
        n = int(np.prod(shape))
        raw = (np.arange(n) * 7919 + 13 * s["k"]) % 200
        if t.kind != "f":
            raw = raw.astype(t)
            raw[0], raw[-1] = (np.iinfo(t).max, np.iinfo(t).min) if t.itemsize < 8 else (2 ** 40, -2 ** 40)  # differences beyond the type's range
        a = raw.astype(t).reshape(shape)
        vals = [x.item() for x in a.ravel()]
        keep = a.copy()
        if t.kind != "f":
            # the median deviation of integer arrays goes through a float median
            decide(ctx, a, vals, f"{t.str} array of shape {shape}", tol=1e-9)
        else:
            decide(ctx, a, vals, f"{t.str} array of shape {shape}", tol=1e-5 if t.itemsize == 4 else 1e-9)
        ctx.check((a == keep).all(), f"{t.str} array of shape {shape} is changed")
        ctx.state(t.str, shape)


def run_sigma(s, ctx):
    sig = [0, 1, 2, 3, 6.93, 10, 100, 255, 1000, 4095, 65535, 1e6, 0.25, 3.5] + [k * 77 for k in range(46)]
    for v in sig:
        want = math.sqrt(v / GAIN)
        for a in (v, float(v), np.float64(v)):
            got = ml.sigma_DN(a)
            ctx.check(abs(float(got) - want) <= 1e-12 * max(1.0, want), f"sigma_DN({a!r}) = {got}, expected {want}")
            ctx.step()
        ctx.state(v)
        ctx.outcome(round(want, 9))
    for dt in ("u1", "i2", "u2", "i4", "f4", "f8", ">f8"):
        a = np.array([v % 120 for v in sig]).astype(dt)
        for b in (a, a.reshape(6, 10), a[::-1], a.reshape(6, 10).T):
            want = np.sqrt(b.astype(float) / GAIN)
            got = ml.sigma_DN(b)
            ctx.same(got, want, f"sigma_DN of {dt} array of shape {b.shape}", rtol=1e-3 if np.dtype(dt).itemsize == 1 else 1e-6)
            ctx.step()
            ctx.state(dt, b.shape)


def run_sun(s, ctx):
    for I in (1, 2, 10.0, 512, 1000.0, 4095, 65535.0, 0.125, 3e5, 1e-3, 77, 12345.678):
        for ti in (None, 1, 0.02, 0.5, 2, 10, 60.0, 1000, 3):
            for td in (None, 1, 0.02, 0.5, 2, 10, 60.0, 1000, 3):
                kw = {}
                if ti is not None:
                    kw["texp_image"] = ti
                if td is not None:
                    kw["texp_diffuser"] = td
                want = SOLID * OPAL * (td or 1) / (ti or 1) / I
                for got in [ml.get_Bsun_units(I, **kw)] + ([ml.get_Bsun_units(I, ti, td)] if len(kw) == 2 else []):
                    ctx.check(abs(got - want) <= 1e-12 * want, f"get_Bsun_units({I}, {kw}) = {got}, expected {want}")
                    ctx.step()
                ctx.state(I, ti, td)
                ctx.outcome(round(math.log(want), 9))
    # images: the conversion makes the brightness independent of the exposure times
    for td in (0.5, 2.0, 8.0):
        for ti in (0.25, 1.0, 4.0):
            sun = 300.0  # DN per second of the diffuser
            img = np.array([1.0, 2.5, 1000.0]) * ti
            got = img * ml.get_Bsun_units(sun * td, texp_image=ti, texp_diffuser=td)
            ctx.same(got, np.array([1.0, 2.5, 1000.0]) * SOLID * OPAL / sun, f"brightness of images of {ti} s against a diffuser of {td} s", rtol=1e-12)
            ctx.step()
