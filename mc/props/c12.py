"""Exhaustive exploration of centres, inner radii, steps and sectors of the radial filter, and of call histories."""
import numpy as np
import micropolarray as ml
from mc import polar, ref

BOUNDS = {
    "quick": "4 frame shapes (odd ones included) x every centre inside and 1 pixel around x inner radius 0..4 x step 1..3 x 6 pairs of sectors x "
             "3 frame kinds (irregular, constant rings, signed); integer and float pixels; steps up to 20, of 31 and of 200 pixels on 3 larger frames x 4 centres (whole and fractional) x 4 inner radii; automatic centre; every sequence of 3 of 8 calls with "
             "results overwritten between calls",
    "thorough": "7 frame shapes up to 14x14, inner radius 0..8, steps 1..5, 9 pairs of sectors; sequences of 4 calls",
}
ASSUMPTIONS = ["pixels whose angle equals a generic sector limit up to rounding, are left open"]
SECT = [([0.0, 360], [0.0, 360]), ([0, 180], [0, 360]), ([0, 360], [90, 270]), ([90, 360], [0, 90]), ([37.3, 300.1], [10.2, 200.7]),
        ([180, 270], [270, 360])]
SECT2 = [([0, 360], [359.5, 360]), ([-10, 200], [0, 400]), ([0.1, 359.9], [44.4, 45.6])]


def frame(kind, h, w, y, x):
    if kind == "rings":  # exactly constant on the annuli of step 1 in one half, irregular in the other
        yy, xx = np.mgrid[0:h, 0:w]
        rr = np.ceil(np.sqrt((yy - y) ** 2 + (xx - x) ** 2))
        return np.where(rr % 2 == 0, 8.0 * rr + 3, ref.code(h, w))
    return ref.frame(kind, h, w)


def scenarios(tier, seed):
    q = tier == "quick"
    shapes = [(6, 6), (7, 9), (10, 8), (5, 12)] + ([] if q else [(14, 14), (3, 3), (12, 7)])
    for h, w in shapes:
        for y in range(-1, h + 1):
            for kind in ("code", "rings", "signed"):
                yield dict(t="grid", h=h, w=w, y=y, kind=kind, rmin=4 if q else 8, step=3 if q else 5, sect=SECT + ([] if q else SECT2))
    for h, w, top in ((20, 26, 4), (33, 18, 9), (12, 60, 20)):
        for y, x in ((h // 2, w // 2), (0, 3), (h - 2, w), (5, w // 3)):
            yield dict(t="wide", h=h, w=w, y=y, x=x, top=top if q else 30)
    for y, x, r in ((40, 40, 20), (44, 37, 22), (36, 43, 18)):
        yield dict(t="auto", y=y, x=x, r=r)
    for a in range(8):
        for b in range(8):
            yield dict(t="history", prefix=[a, b], depth=3 if q else 4)


def run(s, ctx):
    globals()["run_" + s["t"]](s, ctx)


def compare(ctx, got, want, free, what):
    got = np.asarray(got, dtype=float)
    ctx.check(got.shape == want.shape, f"{what}: shape")
    ctx.same(np.where(free, want, got), want, what, rtol=1e-7)
    zero = (want == 0) & ~free
    # exact zeros outside the annuli and for constant ones
    ctx.check(bool((np.abs(got[zero]) < 1e-7).all()), f"{what}: zero expected")


def run_grid(s, ctx):
    h, w, y = s["h"], s["w"], s["y"]
    n = 0
    for x in range(-1, w + 1):
        d = frame(s["kind"], h, w, y, x)
        di = np.floor(d).astype("i4")
        keep, keepi = d.copy(), di.copy()
        for rmin in range(0, s["rmin"] + 1):
            for step in range(1, s["step"] + 1):
                for pm, po in s["sect"]:
                    n += 1
                    a = di if n % 4 == 0 else d
                    kw = {}
                    if step != 1:
                        kw["step"] = step
                    if pm != [0.0, 360]:
                        kw["phi_to_mean"] = list(pm)
                    if po != [0.0, 360]:
                        kw["output_phi"] = list(po)
                    want, free = polar.nrgf(a, y, x, rmin, step, pm, po)
                    got = ml.nrgf(a, y, x, rmin, **kw)
                    compare(ctx, got, want, free, f"nrgf of {s['kind']} {h}x{w} at ({y}, {x}) from {rmin} {kw}")
                    ctx.step()
                    ctx.state(h, w, y, x, rmin, step, pm, po, s["kind"])
                    ctx.outcome(np.round(want, 6))
        ctx.exact(d, keep, "input data")
        ctx.exact(di, keepi, "input data")
    ctx.trace()


def run_wide(s, ctx):
    """Steps of many pixels, also wider than the frame, and centres given as floats, of which the whole part counts."""
    h, w, y, x = s["h"], s["w"], s["y"], s["x"]
    d = ref.frame("signed", h, w)
    for step in [*range(1, s["top"]), s["top"], 31, 200]:
        for rmin in (0, 1, 6, 15):
            want, free = polar.nrgf(d, y, x, rmin, step, *SECT[0])
            for fy, fx in ((0, 0), (0.0, 0.0), (0.25, 0.5), (0.75, 0.9), (0.5, 0.0)):
                got = ml.nrgf(d, y + fy, x + fx, rmin, step=step)
                compare(ctx, got, want, free, f"nrgf of {h}x{w} at ({y + fy}, {x + fx}) from {rmin}, steps of {step}")
                ctx.step()
                ctx.state(h, w, y, x, rmin, step, fy, fx)
    ctx.trace()


def run_auto(s, ctx):
    yy, xx = np.mgrid[0:80, 0:80]
    d = np.where((yy - s["y"]) ** 2 + (xx - s["x"]) ** 2 <= s["r"] ** 2, 10.0, 1000.0) + ref.code(80, 80) / 1000
    pos = ml.find_occulter_position(d)
    want, free = polar.nrgf(d, *pos)
    compare(ctx, ml.nrgf(d), want, free, "nrgf with the found occulter")
    ctx.step()
    ctx.trace()


def run_history(s, ctx):
    from mc.props import c11
    allc = c11.calls()
    cs = [allc[k] for k in (0, 3, 4, 7, 8, 9, 10, 11)] if len(allc) > 11 else [allc[k] for k in (0, 1, 3, 4, 7, 8, 9, 10)]

    def rec(hist, depth):
        for k in range(len(cs)) if len(hist) >= 2 else [s["prefix"][len(hist)]]:
            name, fn, ok = cs[k]
            r = fn()
            ok(ctx, r, f"{name} after " + ", ".join(cs[j][0] for j in hist))
            c11.overwrite(r)
            ctx.step()
            if depth > 1:
                rec(hist + [k], depth - 1)
            else:
                ctx.trace()
                ctx.state("history", hist, k)
    rec([], s["depth"])
