"""Exhaustive enumeration of line and polar profiles; the reported pixels are decided against the geometry of the requested segment."""
import math

import numpy as np
import micropolarray as ml
from mc import ref
from mc.core import Violation

BOUNDS = {
    "quick": "all start/end pairs on frames 1x1, 1x7, 6x1, 7x9, 9x6 and all ends from three starts on 40x64, 64x40, given as lists, tuples and arrays; all integer centres at least 2 pixels "
             "inside (plus fractional ones) of 9x12, 12x9, 24x16 frames x 72 angles in two turns x 9 radius ranges; "
             "rays of up to 900 pixels from 9 places at 101 fractional angles",
    "thorough": "all pairs on frames up to 14x12; 360 angles; all centres of frames up to 40x32, 16 radius ranges",
}


def scenarios(tier, seed):
    q = tier == "quick"
    for h, w in [(1, 1), (1, 7), (6, 1), (7, 9), (9, 6)] + ([] if q else [(14, 12), (11, 14)]):
        for y in range(h):
            yield dict(t="lines", h=h, w=w, ys=[y], xs=list(range(w)), k=seed)
    for h, w in [(40, 64), (64, 40)]:
        yield dict(t="lines", h=h, w=w, ys=[0, h // 3, h - 1], xs=[w // 2], k=seed)
    for h, w in [(9, 12), (12, 9), (24, 16)] + ([] if q else [(30, 24), (24, 40)]):
        for y in range(2, h - 2):
            yield dict(t="polar", h=h, w=w, y=y, step=10 if q else 2, k=seed)
    # rays long enough for a small error of the angle to show
    for h, w, y in [(640, 480, 5), (640, 480, 634), (300, 900, 150)]:
        for x in (5, w // 2, w - 6):
            yield dict(t="polar", h=h, w=w, y=y, x=x, long=1, k=seed)


def run(s, ctx):
    globals()["run_" + s["t"]](s, ctx)


FORMS = (list, tuple, np.array)
DT = ("f8", ">f4", "i4", "u2")


def pixels(ctx, what, d, ys, xs, vals):
    ys, xs, vals = np.asarray(ys), np.asarray(xs), np.asarray(vals)
    ctx.check(ys.ndim == 1 and ys.shape == xs.shape == vals.shape and len(ys) > 0, f"{what}: {len(ys)} y, {len(xs)} x, {vals.shape} values")
    ctx.check((ys == ys.astype(int)).all() and (xs == xs.astype(int)).all(), f"{what}: fractional pixels")
    ok = (ys >= 0) & (ys < d.shape[0]) & (xs >= 0) & (xs < d.shape[1])
    ctx.check(ok.all(), f"{what}: pixels outside the image {list(zip(ys[~ok], xs[~ok]))[:2]}")
    ctx.exact(vals, d[ys, xs], f"{what}: values")
    if len(ys) > 1:
        st = np.maximum(np.abs(np.diff(ys)), np.abs(np.diff(xs)))
        ctx.check((st == 1).all(), f"{what}: consecutive pixels are not neighbours")
    return ys.astype(int), xs.astype(int)


def run_lines(s, ctx):
    h, w = s["h"], s["w"]
    base = np.floor(ref.code(h, w, salt=s["k"]))
    k = 0
    for y1 in s["ys"]:
        for x1 in s["xs"]:
            for y2 in range(h):
                for x2 in range(w):
                    k += 1
                    d = base.astype(DT[k % 4])
                    c = d.copy()
                    fm = FORMS[k % 3]
                    a, b = fm([y1, x1]), fm([y2, x2])
                    what = f"line from {(y1, x1)} to {(y2, x2)} of {h}x{w}"
                    ys, xs, vals = ml.linear_roi(d, a, b)
                    ys, xs = pixels(ctx, what, d, ys, xs, vals)
                    n = max(abs(y2 - y1), abs(x2 - x1))
                    ctx.check(len(ys) == n + 1, f"{what}: {len(ys)} pixels, expected {n + 1}")
                    ctx.check((ys[0], xs[0]) == (y1, x1) and (ys[-1], xs[-1]) == (y2, x2), f"{what}: goes from {(ys[0], xs[0])} to {(ys[-1], xs[-1])}")
                    if n:
                        major, m1, m2 = (ys, y1, y2) if abs(y2 - y1) >= abs(x2 - x1) else (xs, x1, x2)
                        ctx.check((np.diff(major) == (1 if m2 > m1 else -1)).all(), f"{what}: steps of the longer axis {np.diff(major)}")
                        dist = np.abs((ys - y1) * (x2 - x1) - (xs - x1) * (y2 - y1)) / math.hypot(y2 - y1, x2 - x1)
                        ctx.check(dist.max() <= 1 + 1e-9, f"{what}: {dist.max()} pixels off the line")
                    ctx.check((d == c).all() and tuple(a) == (y1, x1) and tuple(b) == (y2, x2), f"{what}: arguments changed")
                    ctx.step()
                    ctx.state(h, w, y1, x1, y2, x2)
                    ctx.outcome(len(ys))
    ctx.trace()


def reach(h, w, cy, cx, th, b=0):
    """Distance from the centre along the ray to b pixels before the border (the last pixel centres)."""
    dy, dx = -math.sin(th), math.cos(th)
    t = math.inf
    for c, v, n in ((cy, dy, h), (cx, dx, w)):
        if v > 1e-12:
            t = min(t, (n - 1 - b - c) / v)
        elif v < -1e-12:
            t = min(t, (c - b) / -v)
    return t


RANGES = (None, (0, 4), (0, 7.5), (1, 6), (2, 5), (3, 1.0e18), (2.5, 9), (0, 1.0e18), (4, 8))


def run_polar(s, ctx):
    h, w = s["h"], s["w"]
    base = np.floor(ref.code(h, w, salt=s["k"]))
    k = 0
    angles = list(range(-360, 361, s["step"])) + [0.5, 44.7, 45, 135, -45, 225, 89.9, 179.99, 90.0, 180.0, 400.25] if "step" in s else [v * 7.225 - 361.3 for v in range(101)]
    for cx0 in [s["x"]] if "x" in s else range(2, w - 2):
        for cy, cx in ((s["y"], cx0), (s["y"] + 0.5, cx0 + 0.25)):
            if cy > h - 3 or cx > w - 3:
                continue
            for theta in angles:
                th = math.radians(theta)
                dy, dx = -math.sin(th), math.cos(th)
                t2 = reach(h, w, cy, cx, th, 2)
                t3 = reach(h, w, cy, cx, th, -1)
                for r in ((None, (0, 1.0e18), (200, 450)) if s.get("long") else RANGES):
                    r0, r1 = r if r else (0, math.inf)
                    if min(r1, t2) < r0 + 2:
                        continue  # nothing of the image lies in the range
                    k += 1
                    d = base.astype(DT[k % 4])
                    c = d.copy()
                    fm = FORMS[k % 3]
                    cen = fm([cy, cx])
                    rr = None if r is None else fm(r)
                    what = f"ray of {theta} degrees from {(cy, cx)} of {h}x{w}, radii {r}"
                    vals, ys, xs, ratio = ml.linear_roi_from_polar(d, cen, theta, rr) if r else ml.linear_roi_from_polar(d, cen, theta)
                    ys, xs = pixels(ctx, what, d, ys, xs, vals)
                    al = (ys - cy) * dy + (xs - cx) * dx
                    off = np.abs((ys - cy) * dx - (xs - cx) * dy)
                    ctx.check(off.max() <= 2.5, f"{what}: {off.max():.2f} pixels off the ray")
                    ctx.check(abs(al.min() - r0) <= 2.5, f"{what}: starts at {al.min():.2f}")
                    # the last pixel lies within 2 pixels of the border (perpendicularly) or of the outer radius
                    ctx.check(min(r1, t2) - 2.5 <= al.max() <= min(r1, t3) + 2.5, f"{what}: ends at {al.max():.2f}, expected {min(r1, t2):.2f} to {min(r1, t3):.2f}")
                    ctx.check(len(ys) == 1 or al[0] < al[-1], f"{what}: runs inwards")
                    ctx.check(abs(ratio * len(ys) - math.hypot(ys[-1] - ys[0], xs[-1] - xs[0])) <= 2.5, f"{what}: length per element {ratio}")
                    ctx.check((d == c).all() and tuple(cen) == (cy, cx) and (r is None or tuple(rr) == tuple(r)), f"{what}: arguments changed")
                    ctx.step()
                    ctx.state(h, w, cy, cx, theta, r)
                    ctx.outcome(len(ys))
    ctx.trace()
