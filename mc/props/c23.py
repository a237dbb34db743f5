"""Exhaustive enumeration of angles and short angle lists through the real normalisation."""
import itertools
import math

import numpy as np
import micropolarray as ml

BOUNDS = {
    "quick": "every multiple of 0.25 degrees in +-1080 degrees (scalars of 4 types and lists), neighbouring floats of every range border of 12 turns; all lists of length 0..4 over 8 angles; arrays in radians "
             "of the same values in 6 shapes, 2 types and 3 layouts",
    "thorough": "every multiple of 1/64 degree in +-1080 degrees, lists up to length 6",
}


def scenarios(tier, seed):
    q = tier == "quick"
    den = 4 if q else 64
    for turn in range(-6, 6):
        yield dict(t="degrees", lo=turn * 180, den=den)
    yield dict(t="borders")
    for n in range(0, 5 if q else 7):
        yield dict(t="lists", n=n)
    for shape in [(), (1,), (7,), (3, 5), (2, 3, 4), (0,)]:
        for dt in ("f8", "f4"):
            for lay in ("C", "F", "view", "readonly"):
                yield dict(t="radians", shape=list(shape), dt=dt, lay=lay, den=den)


def run(s, ctx):
    globals()["run_" + s["t"]](s, ctx)


def one(ctx, a, arg=None, what=None):
    arg = a if arg is None else arg
    what = what or f"angle {arg!r}"
    got = ml.normalize2pi(arg)
    ctx.check(isinstance(got, list) and len(got) == 1, f"{what}: returned {got!r}")
    decide(ctx, a, got[0], what)


def decide(ctx, a, g, what):
    ctx.check(-90 < g <= 90, f"{what}: {g!r} out of range")
    k = round((a - g) / 180)
    ctx.check(abs(a - g - 180 * k) <= 1e-12 * max(1.0, abs(a)), f"{what}: {g!r} is not equivalent")
    if -90 < a <= 90:
        ctx.check(g == a, f"{what}: changed to {g!r}")
    ctx.step()
    ctx.state(what)
    ctx.outcome(float(g))


def run_degrees(s, ctx):
    vals = [s["lo"] + k / s["den"] for k in range(180 * s["den"] + 1)]
    for v in vals:
        one(ctx, v)
        one(ctx, v, np.float64(v), f"angle float64 {v}")
        if v == int(v):
            one(ctx, v, int(v), f"angle int {v}")
            one(ctx, v, np.int64(v), f"angle int64 {v}")
    keep = list(vals)
    got = ml.normalize2pi(vals)
    ctx.check(vals == keep, "the list of the caller changed")
    ctx.check(len(got) == len(vals), f"{len(got)} angles returned for {len(vals)}")
    for v, g in zip(vals, got):
        decide(ctx, v, g, f"angle {v} in a list")
    ctx.trace()


def run_borders(s, ctx):
    for t in range(-12, 13):
        b = 90.0 + 180 * t
        for v in (b, math.nextafter(b, math.inf), math.nextafter(b, -math.inf), b + 1e-9, b - 1e-9):
            g = ml.normalize2pi(v)[0]
            ctx.check(-90 < g <= 90, f"angle {v!r}: {g!r} out of range")
            ctx.check(abs(math.remainder(v - g, 180)) <= 1e-12 * abs(v), f"angle {v!r}: {g!r} is not equivalent")
            ctx.step()
            ctx.state(v)
    for v in (0.0, 90.0, math.nextafter(-90.0, 0), 45.5):
        ctx.check(ml.normalize2pi(v) == [v], f"{v} changed")
    ctx.trace()


ALPHA = (0, 90, -90, 91.5, -135, 180, 45.25, 360)


def run_lists(s, ctx):
    for t in itertools.product(ALPHA, repeat=s["n"]):
        lst = list(t)
        got = ml.normalize2pi(lst)
        ctx.check(lst == list(t) and got is not lst, f"list {t} of the caller changed or returned itself")
        ctx.check(isinstance(got, list) and len(got) == len(t), f"list {t}: {got}")
        for v, g in zip(t, got):
            decide(ctx, v, g, f"{v} in list {t}")
    ctx.trace()


def run_radians(s, ctx):
    n = max(1, int(np.prod(s["shape"], dtype=int)))
    vals = np.array([k * math.pi / (180 * s["den"] / 4) for k in range(-720 * s["den"] // 4, 720 * s["den"] // 4 + 1)])
    half = math.pi / 2
    eps = 1e-6 if s["dt"] == "f4" else 1e-13
    extra = [half, -half, math.nextafter(half, 2), math.nextafter(half, 0), math.nextafter(-half, -2), math.nextafter(-half, 0), 1.5 * math.pi, -1.5 * math.pi, 0.0, -0.0, 3.0, -3.0, 50.0, -50.0]
    vals = np.concatenate([extra, vals])
    if s["shape"] == [0]:
        got = ml.normalize2piarray(np.zeros(0))
        ctx.check(np.asarray(got).shape == (0,), "empty array")
        return
    for o in range(0, len(vals) - n + 1, n):
        a = vals[o:o + n].reshape(s["shape"]).astype(s["dt"])
        if s["lay"] == "F":
            a = np.array(a, order="F")
        elif s["lay"] == "view" and a.ndim:
            big = np.zeros([2 * v for v in a.shape], dtype=s["dt"])
            big[tuple(slice(None, None, 2) for _ in a.shape)] = a
            a = big[tuple(slice(None, None, 2) for _ in a.shape)]
        elif s["lay"] == "readonly":
            a.setflags(write=False)
        c = a.copy()
        g = np.asarray(ml.normalize2piarray(a))
        what = f"array {c.tolist() if n < 3 else c.shape} ({s['dt']}, {s['lay']}) at {o}"
        ctx.check(a.tobytes() == c.tobytes(), f"{what}: the array of the caller changed")
        ctx.check(g.shape == c.shape, f"{what}: shape {g.shape}")
        gf, af = g.astype(float), c.astype(float)
        ctx.check((gf > -half - eps).all() and (gf <= half + eps).all(), f"{what}: out of range")
        if s["dt"] == "f8":
            ctx.check((gf > -half).all() and (gf <= half).all(), f"{what}: out of range by rounding")
        k = np.round((af - gf) / math.pi)
        ctx.check((np.abs(af - gf - k * math.pi) <= (1e-4 if s["dt"] == "f4" else 1e-12)).all(), f"{what}: not equivalent")
        ins = (af > -half + eps) & (af <= half - eps) if s["dt"] == "f4" else (af > -half) & (af <= half)
        ctx.check((gf[ins] == af[ins]).all(), f"{what}: values in range changed")
        ctx.step()
        ctx.state(s["shape"], s["dt"], s["lay"], o)
        ctx.outcome(g)
    ctx.trace()
