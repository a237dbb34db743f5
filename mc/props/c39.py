"""Exhaustive enumeration of two- and three-level frames (levels, region shapes and places, pixel types, isolated pixels) through the automatic threshold, against Otsu's criterion evaluated over every possible split."""
import itertools

import numpy as np
import micropolarray as ml
from numpy.lib.stride_tricks import sliding_window_view
from mc import ref

BOUNDS = {
    "quick": "two levels: 26 level pairs (spans 1e-6 to 1e9, negative, below 1) x half-planes at every border position 12..28 of 40 in 4 directions, 9 squares, 6 discs; 8 pixel types; an isolated pixel at each of 49 places; three levels: all widths "
             "in steps of 6 of stripes over 60 columns x 17 level triples x 2 directions; four levels: all widths in steps of 12 over 90 columns x 5 level quadruples; 96 slopes",
    "thorough": "all widths in steps of 2, of four levels in steps of 6",
}
PAIRS = [(0, 1), (0, 100), (100, 101), (0, 2), (5, 4000), (0.1, 0.9), (0.0, 0.5), (0.2, 0.25), (1e-3, 2e-3), (1e-6, 3e-6), (-1.0, 1.0), (-0.5, -0.25), (-300, -200), (-50, 900), (0, 1e9), (1e6, 1e6 + 0.5),
         (0, 65535), (0, 0.999), (0, 1.001), (10, 10.5), (250, 255), (3, 7), (1000, 1500), (1e-9, 1.0), (-1e-3, 0), (20000, 30000)]
TRIPLES = [(0, 10, 100), (0, 90, 100), (0, 50, 100), (10, 20, 30), (0.1, 0.2, 0.9), (-1, 0, 5), (100, 4000, 4095), (0, 1, 2), (0.0, 0.4, 0.5), (1000, 1010, 5000), (0, 700, 1000), (-100, -99, 3),
           (0, 45, 100), (0, 40, 100), (0, 56, 100), (100, 130, 170), (0.3, 0.37, 0.45)]
QUADS = [(0, 10, 20, 30), (0, 10, 25, 60), (0, 40, 60, 100), (5, 6, 30, 33), (0, 30, 50, 100)]


def scenarios(tier, seed):
    q = tier == "quick"
    for k in range(len(PAIRS)):
        yield dict(t="two", pair=k)
    for dt in ("u1", "i2", "u2", "i4", ">i2", ">u2", "f4", ">f4"):
        yield dict(t="types", dt=dt)
    yield dict(t="isolated")
    for k in range(len(TRIPLES)):
        yield dict(t="three", triple=k, step=6 if q else 2)
    for k in range(len(QUADS)):
        yield dict(t="four", quad=k, step=12 if q else 6)
    yield dict(t="slopes")
    yield dict(t="flat")


def run(s, ctx):
    globals()["run_" + s["t"]](s, ctx)
    ctx.trace()


def shapes():
    y, x = np.mgrid[0:40, 0:40]
    for b in range(12, 29):
        for m in (y < b, y >= b, x < b, x >= b)[b % 2::2]:
            yield f"half-plane at {b}", m
    for oy, ox in itertools.product((0, 9, 20), repeat=2):
        yield f"square at {(oy, ox)}", (y >= oy) & (y < oy + 20) & (x >= ox) & (x < ox + 20)
    for r, c in ((13, (20, 20)), (16, (18, 21)), (10, (12, 25)), (18, (20, 19)), (20, (0, 0)), (15, (39, 10))):
        yield f"disc of radius {r} at {c}", (y - c[0]) ** 2 + (x - c[1]) ** 2 <= r * r


def separates(ctx, d, lo, hi, what):
    keep = d.copy()
    t = float(ml.auto_threshold(d))
    ctx.check(lo < t <= hi, f"{what}: threshold {t!r} does not separate {lo} from {hi}")
    ctx.check(d.tobytes() == keep.tobytes(), f"{what}: the frame is changed")
    ctx.step()
    ctx.outcome(t)


def run_two(s, ctx):
    lo, hi = PAIRS[s["pair"]]
    for n, (name, m) in enumerate(shapes()):
        d = np.where(m, hi, lo).astype(float)
        separates(ctx, d, lo, hi, f"{lo} and {hi}, {name}")
        ctx.state(lo, hi, name)


def run_types(s, ctx):
    t = np.dtype(s["dt"])
    for lo, hi in ((0, 1), (0, 100), (100, 101), (3, 255), (0, 255), (254, 255), (7, 90)):
        for n, (name, m) in enumerate(shapes()):
            if n % 5:
                continue
            separates(ctx, np.where(m, hi, lo).astype(t), lo, hi, f"{t.str}: {lo} and {hi}, {name}")
            ctx.state(t.str, lo, hi, name)
    for lo, hi in ((-100, 20), (-3, -1)) if t.kind != "u" else ():
        for n, (name, m) in enumerate(shapes()):
            if n % 7:
                continue
            separates(ctx, np.where(m, hi, lo).astype(t), lo, hi, f"{t.str}: {lo} and {hi}, {name}")
            ctx.state(t.str, lo, hi, name)
    if t.itemsize == 2:
        top = np.iinfo(t).max
        y = np.mgrid[0:40, 0:40][0]
        for lo, hi in ((0, top), (top - 1, top), (top // 2, top)):
            separates(ctx, np.where(y < 18, hi, lo).astype(t), lo, hi, f"{t.str}: {lo} and {hi}")


def run_isolated(s, ctx):
    """Single outliers are ignored: they are far fewer than the pixels of a region."""
    y, x = np.mgrid[0:40, 0:40]
    base = np.where((y - 20) ** 2 + (x - 19) ** 2 <= 196, 50.0, 800.0)
    for py, px in itertools.product(range(0, 40, 6), repeat=2):
        for v in (1e6, -1e6, 0.0, 5000.0):
            d = base.copy()
            d[py, px] = v
            d[(py + 13) % 40, (px + 17) % 40] = v
            separates(ctx, d, 50.0, 800.0, f"disc with outliers of {v} at {(py, px)} and {((py + 13) % 40, (px + 17) % 40)}")
            ctx.state(py, px, v)


def filtered(d):
    """The middle value (the upper one of two) of each pixel's 10x10 neighbourhood, frame mirrored at its borders."""
    p = np.pad(d, ((5, 4), (5, 4)), mode="symmetric")
    w = sliding_window_view(p, (10, 10)).reshape(*d.shape, 100)
    return np.sort(w, axis=-1)[..., 50]


def variance(f, t):
    return sum(c.mean() * f[c].var() for c in (f >= t, f < t) if c.any())


def best_split(ctx, d, what):
    """No split which the 1000 equidistant thresholds can make leaves less variance."""
    f = filtered(d)
    t = float(ml.auto_threshold(d))
    levels = np.unique(f)
    ctx.check(levels[0] < t <= levels[-1], f"{what}: threshold {t} outside of the levels")
    gap = (levels[-1] - levels[0]) / 999
    best = min(variance(f, v) for v, u in zip(levels[1:], levels) if v - u > gap)
    got = variance(f, t)
    ctx.check(got <= best * (1 + 1e-9) + 1e-12, f"{what}: threshold {t} leaves a variance of {got}, {best} is possible")
    ctx.step()
    ctx.outcome(int(np.searchsorted(levels, t)), len(levels))


def run_four(s, ctx):
    lv = QUADS[s["quad"]]
    for a, b, c in itertools.product(range(12, 49, s["step"]), repeat=3):
        if a + b + c <= 78:
            w = (a, b, c, 90 - a - b - c)
            for sign in (1, -1):
                d = np.tile(np.repeat(np.array(lv, float), w)[::sign], (16, 1))
                best_split(ctx, d, f"levels {lv} on {w} lines, direction {sign}")
                ctx.state(lv, w, sign)


def run_slopes(s, ctx):
    """Brightness rising along the frame: every line a level of its own."""
    x = np.arange(1, 61) / 60
    for p in (0.4, 0.7, 1.0, 1.3, 1.6, 2.0, 3.0, 5.0):
        for lo, hi in ((0, 1), (0, 4000), (-30, 70), (1000, 1e6)):
            for n, row in enumerate((lo + (hi - lo) * x ** p, hi - (hi - lo) * x ** p, np.where(x < 0.4, lo, lo + (hi - lo) * x ** p))):
                best_split(ctx, np.tile(row, (14, 1)), f"slope {n} of power {p} from {lo} to {hi}")
                ctx.state(p, lo, hi, n)


def run_three(s, ctx):
    lv = TRIPLES[s["triple"]]
    for a in range(12, 38, s["step"]):
        for b in range(12, 60 - a - 11, s["step"]):
            row = np.repeat(np.array(lv, float), (a, b, 60 - a - b))
            for perm, r in (("rising", row), ("falling", row[::-1])):
                d = np.tile(r, (24, 1))
                if (a + b) % 4 == 0:
                    d = d.T.copy()
                best_split(ctx, d, f"levels {lv} on {a}, {b}, {60 - a - b} lines, {perm}")
                ctx.state(lv, a, b, perm)


def run_flat(s, ctx):
    """Constant frames: nothing to separate, but a threshold all the same."""
    for v in (0.0, 1.0, 1e6, -3.5):
        for shape in ((40, 40), (12, 30), (1, 1)):
            t = float(ml.auto_threshold(np.full(shape, v)))
            ctx.check(np.isfinite(t), f"constant frame of {v}: threshold {t}")
            ctx.step()
            ctx.state(v, shape)
