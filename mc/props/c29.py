"""Exhaustive enumeration of dark discs (frame, radius, centre, brightness) through the real occulter searches."""
import math

import numpy as np
import micropolarray as ml
from mc import ref
from mc.core import Violation

BOUNDS = {
    "quick": "frames 64x64, 80x104, 101x84, 150x160, 60x150, 170x64; radii 12..60 by 4..14; every 2nd disc centre in each direction whose edges lie at least 10 pixels from the frame's centre in all four directions and 3 from the border; "
             "edge fitting, threshold method (3 thresholds) and circle detection (default and given radius limits); 3 brightness pairs, 3 pixel types; backgrounds 1, 2 and 5 % above 3 thresholds",
    "thorough": "every such centre, radii by 2, also frames 97x121 and 240x200",
}
TIME_LIMIT = 900.0
LEVELS = [(0.0, 100.0), (10.0, 1000.0), (2.0, 60000.0)]


def scenarios(tier, seed):
    q = tier == "quick"
    for h, w in [(64, 64), (80, 104), (101, 84), (150, 160), (60, 150), (170, 64)] + ([] if q else [(97, 121), (240, 200)]):
        for r in range(12, min(h, w) // 2 - 3, (4 if h < 100 else 14) if q else 2):
            yield dict(h=h, w=w, r=r, step=2 if q else 1, k=seed)


def disc(h, w, cy, cx, r, lo, hi):
    y, x = np.mgrid[0:h, 0:w]
    return np.where((y - cy) ** 2 + (x - cx) ** 2 <= r * r, lo, hi)


def run(s, ctx):
    h, w, r = s["h"], s["w"], s["r"]
    n = 0
    # the sets of the steps of all runs with different k together are every centre
    for cy in range(3 + r, h - 3 - r):
        for cx in range(3 + r, w - 3 - r):
            dy, dx = cy - h // 2, cx - w // 2
            if s["step"] > 1 and ((dy + s["k"]) % s["step"] or (dx + s["k"]) % s["step"]) and (dy or dx):
                continue
            if abs(dy) >= r or abs(dx) >= r:
                continue
            hx, hy = math.sqrt(r * r - dy * dy), math.sqrt(r * r - dx * dx)  # half-chords of the central row and column
            if min(hy - abs(dy), hx - abs(dx)) < 10:
                continue
            n += 1
            lo, hi = LEVELS[n % 3]
            d = disc(h, w, cy, cx, r, lo, hi).astype(("f8", "f4", "u2")[n // 3 % 3])
            keep = d.copy()
            what = f"disc of radius {r} at {(cy, cx)} in {h}x{w}, {lo} on {hi}"
            for name, fn, rad in (("edge fitting", lambda: ml.find_occulter_position(d), 0.5 * (hx + hy)),
                                  ("threshold method", lambda: ml.find_occulter_position(d, method="algo", threshold=(2.0, 4.0, 6.0)[n % 3]), 0.5 * (hx + hy)),
                                  ("circle detection", lambda: ml.find_occulter_hough(d), r),
                                  ("limited circle detection", lambda: ml.find_occulter_hough(d, minr=r - 4, maxr=r + 5), r)):
                try:
                    y, x, rr = fn()
                except Exception as e:  # noqa
                    raise Violation(f"{name}, {what}: {type(e).__name__}: {e}")
                tol = 6 if "circle" in name else 3  # the accuracy of cv2's accumulator: up to 5 pixels for some radii
                ctx.check(abs(y - cy) <= tol and abs(x - cx) <= tol, f"{name}, {what}: centre {(float(y), float(x))}")
                ctx.check(abs(rr - rad) <= tol, f"{name}, {what}: radius {float(rr)}, expected {rad:.1f}")
                ctx.step()
            ctx.check(d.tobytes() == keep.tobytes(), f"{what}: data changed")
            # the background is just above the threshold, counted in units of the disc's brightness
            for thr, f in ((1.5, 1.02), (4.0, 1.05), (9.0, 1.01)):
                c = disc(h, w, cy, cx, r, 10.0, 10.0 * thr * f)
                try:
                    y, x, rr = ml.find_occulter_position(c, method="algo", threshold=thr)
                except Exception as e:  # noqa
                    raise Violation(f"threshold method, {what.rsplit(',', 1)[0]}, {f} x the threshold of {thr}: {type(e).__name__}: {e}")
                ctx.check(abs(y - cy) <= 3 and abs(x - cx) <= 3 and abs(rr - 0.5 * (hx + hy)) <= 3, f"threshold method, {what.rsplit(',', 1)[0]}, {f} x the threshold of {thr}: {(float(y), float(x), float(rr))}")
                ctx.step()
            ctx.state(h, w, r, cy, cx)
            ctx.outcome(round(float(y)), round(float(x)), round(float(rr)))
    if n:
        ctx.trace()
