"""Exhaustive exploration of centres, radii and sectors on every frame shape up to a bound, and of call histories."""
import itertools

import numpy as np
import micropolarray as ml
from mc import polar, ref

BOUNDS = {
    "quick": "polar selection: 5 frame shapes x every centre inside and 2 pixels around x 15 radius pairs x 7 sectors x superpixel/pixel x "
             "fills, booleans; masking: every centre x radii 0..7 x overoccult x plain/demosaiced/demodulated; every sequence of 3 of 12 calls with "
             "results overwritten between calls; PolarCam masks",
    "thorough": "7 frame shapes, 24 radius pairs, 12 sectors; call sequences of length 4",
}
ASSUMPTIONS = ["frames have even sides (superpixels)", "pixels whose angle equals a sector limit that is not a multiple of 90 degrees up to "
               "rounding, and the angle of the centre pixel itself, are left open", "occulter centres lie inside the frame or close to it",
               "an omitted radius range is only specified together with an omitted centre"]
RHOS = [[0, 3], [1, 4], [2, 2], [-1, 2], [-2, 3], [3, 100], [0.5, 2.5], [4, 1], [0, 0], [2.0, 5.0], [1, 3], [5, 9], [3, 6], [2, 7], [0, 1]]
RHOS2 = [[-5, -2], [-4, 0], [6, 8], [3.9, 4.1], [7, 7.5], [1.5, 6], [0, 12], [2, 3], [8, 20]]
THETAS = [[0, 360], [0, 90], [90, 270], [37.3, 200.1], [300.5, 360], [180, 181], [-20, 50.2]]
THETAS2 = [[270, 360], [0, 400], [90, 90], [0.1, 359.9], [135.7, 225.3]]


def scenarios(tier, seed):
    q = tier == "quick"
    shapes = [(6, 6), (6, 8), (8, 6), (4, 10), (10, 10)] + ([] if q else [(12, 8), (2, 6)])
    rhos = RHOS + ([] if q else RHOS2)
    thetas = THETAS + ([] if q else THETAS2)
    for h, w in shapes:
        for cy in range(-2, h + 2):
            yield dict(t="roi", h=h, w=w, cy=cy, rhos=rhos, thetas=thetas)
            yield dict(t="mask", h=h, w=w, cy=cy, k=(seed + cy + h) % 48)
        yield dict(t="omitted", h=h, w=w)
    n = len(calls())
    for a in range(n):
        for b in range(n):
            yield dict(t="history", prefix=[a, b], depth=3 if q else 4)
    yield dict(t="camera", over=0)
    yield dict(t="camera", over=14)
    yield dict(t="camera", over=-5)


def check_roi(ctx, d, sel, free, got, fill, what):
    d = np.asarray(d)
    want = np.where(sel, d.astype(float), fill)
    got = np.asarray(got, dtype=float)
    ctx.check(got.shape == d.shape, f"{what}: shape {got.shape}")
    g = np.where(free, want, got)
    ctx.exact(g, want, what)
    ok = (got == d) | (got == fill) | np.isnan(got)
    ctx.check(bool(ok.all()), f"{what}: a value which is neither the pixel nor the fill")


def run(s, ctx):
    globals()["run_" + s["t"]](s, ctx)


def run_roi(s, ctx):
    h, w, cy = s["h"], s["w"], s["cy"]
    d = ref.code(h, w)
    di = np.floor(d).astype("u2")
    keep, keepi = d.copy(), di.copy()
    fills = (0.0, -1.0, 7.5, float("nan"))
    n = 0
    for cx in range(-2, w + 2):
        for rho in s["rhos"]:
            for theta in s["thetas"]:
                for sp in (True, False):
                    n += 1
                    sel, free = polar.roi(h, w, (cy, cx), rho, theta, sp)
                    c, r, t = [cy, cx], list(rho), list(theta)
                    kw = {} if sp else dict(include_superpixels=False)
                    if theta != [0, 360]:
                        kw["theta"] = t
                    fill = fills[n % 4]
                    if fill != 0.0:
                        kw["fill"] = fill
                    a = di if n % 3 == 0 else d
                    what = f"{h}x{w}, centre {c}, rho {r}, theta {t}, {'superpixels' if sp else 'pixels'}"
                    check_roi(ctx, a, sel, free, ml.roi_from_polar(a, c, r, **kw), fill, f"roi_from_polar {what}, fill {fill}")
                    ctx.check((c, r, t) == ([cy, cx], rho, theta), f"roi_from_polar {what}: arguments changed to {c}, {r}, {t}")
                    if n % 2:
                        b = np.asarray(ml.roi_from_polar(a, tuple(c), tuple(r), return_boolean=True, **kw))
                        ctx.check(b.dtype == bool, f"roi_from_polar {what}: booleans have type {b.dtype}")
                        ctx.exact(np.where(free, sel, b), sel, f"boolean roi {what}")
                    ctx.step()
                    ctx.state(h, w, cy, cx, rho, theta, sp)
                    ctx.outcome(sel)
    # half pixel centres (pixel selection)
    for cx in (1.5, w / 2 - 0.5):
        sel, free = polar.roi(h, w, (cy + 0.5, cx), [1, 3.5], [0, 360], False)
        check_roi(ctx, d, sel, free, ml.roi_from_polar(d, [cy + 0.5, cx], [1, 3.5], include_superpixels=False), 0.0, f"centre {cy + 0.5}, {cx}")
    ctx.exact(d, keep, "input data")
    ctx.exact(di, keepi, "input data")
    ctx.trace()


def run_omitted(s, ctx):
    h, w = s["h"], s["w"]
    d = ref.code(h, w)
    for sp in (True, False):
        for rho in [None] + RHOS:
            for theta in THETAS:
                sel, free = polar.roi(h, w, None, rho, theta, sp)
                kw = dict(theta=list(theta), include_superpixels=sp)
                if rho is not None:
                    kw["rho"] = list(rho)
                check_roi(ctx, d, sel, free, ml.roi_from_polar(d, **kw), 0.0, f"{h}x{w}, centre omitted, rho {rho}, theta {theta}, superpixels {sp}")
                ctx.step()
                ctx.state(h, w, rho, theta, sp)
    sel, free = polar.roi(h, w)
    check_roi(ctx, d, sel, free, ml.roi_from_polar(d), 0.0, f"{h}x{w}, all defaults")
    ctx.trace()


def masked(a, sel, fill):
    return np.where(sel, np.asarray(a, dtype=float), fill)


class MaskModel:
    def __init__(self, im, demosaiced):
        self.d, self.S = np.array(im.data, dtype=float), np.array(im.Stokes_vec)
        self.dem = np.array(im.demosaiced_images) if demosaiced else None

    def mask(self, y, x, r, fill):
        h, w = self.d.shape
        sel, _ = polar.roi(h, w, (y, x), [r, 10 ** 6], superpixels=True)
        self.d = masked(self.d, sel, fill)
        if self.dem is not None:
            self.dem = np.array([masked(a, sel, fill) for a in self.dem])
            ss, _ = polar.roi(h, w, (y, x), [r, 10 ** 6], superpixels=False)
        else:
            ss, _ = polar.roi(h // 2, w // 2, (int(y / 2), int(x / 2)), [int(r / 2), 10 ** 6], superpixels=False)
        self.S = np.array([masked(a, ss, fill) for a in self.S])

    def compare(self, ctx, im, what):
        ctx.exact(im.data, self.d, f"{what}: data")
        ctx.exact(im.Stokes_vec, self.S, f"{what}: Stokes maps")
        if self.dem is not None:
            ctx.exact(np.array(im.demosaiced_images), self.dem, f"{what}: demosaiced images")
        ctx.same(im.pB.data, ref.pb(self.S), f"{what}: pB")


def run_mask(s, ctx):
    from mc.props.c10 import demod
    h, w, cy = s["h"], s["w"], s["cy"]
    n = 0
    for cx in range(-2, w + 2):
        for r in range(0, 8):
            for mode in ("plain", "demosaiced", "demodulated", "int"):
                n += 1
                over = (0, 0, 1, 3, -r)[n % 5]
                fill = (0.0, -1.0, float("nan"))[n % 3]
                d = ref.frame("int", h, w).astype("i4") if mode == "int" else ref.code(h, w, salt=n % 5)
                im = ml.MicropolImage(d, angle_dic=ref.dic_of(s["k"]))
                if mode == "demosaiced":
                    im.demosaic("adjacent" if n % 2 else "mean")
                elif mode == "demodulated":
                    im = im.demodulate(demod(h, w, ctx.scratch))
                m = MaskModel(im, mode == "demosaiced")
                kw = {}
                if over:
                    kw["overoccult"] = over
                if fill != 0.0:
                    kw["fill"] = fill
                what = f"{mode} {h}x{w} image masked at ({cy}, {cx}) radius {r} {kw}"
                im.mask_occulter(cy, cx, r, **kw)
                m.mask(cy, cx, r + over, fill)
                m.compare(ctx, im, what)
                # a second disc
                im.mask_occulter(y=h - 1, x=1, r=2)
                m.mask(h - 1, 1, 2, 0.0)
                m.compare(ctx, im, what + " then at the corner")
                ctx.check(dict(im.angle_dic) == ref.dic_of(s["k"]), f"{what}: orientations")
                ctx.step(2)
                ctx.state(m.d, m.S)
                ctx.outcome(m.d)
    ctx.trace()


def calls():
    """(name, function on the live arrays, model) of calls sharing cached coordinate maps."""
    A, B = ref.code(8, 8), ref.code(6, 8)
    res = []

    def roi(a, c, r, t, sp, fill=0.0):
        def fn():
            return ml.roi_from_polar(a, list(c), list(r), theta=list(t), include_superpixels=sp, fill=fill)

        def ok(ctx, got, what):
            sel, free = polar.roi(*a.shape, c, r, t, sp)
            check_roi(ctx, a, sel, free, got, fill, what)
        res.append((f"roi {a.shape} {c} {r} {t} {sp}", fn, ok))

    roi(A, (4, 4), (1, 3), (0, 360), False)
    roi(A, (4, 4), (0, 2), (0, 90), False, -1.0)
    roi(A, (8, 8), (2, 6), (0, 360), True)
    roi(A, (4, 4), (0, 6), (0, 360), True)
    roi(B, (3, 4), (1, 3), (90, 270), False)
    roi(B, (2, 3), (1, 5), (0, 360), True)
    roi(ref.code(4, 4), (4, 4), (1, 3), (0, 360), False)

    def boo():
        return ml.roi_from_polar(A, [4, 4], [1, 3], return_boolean=True, include_superpixels=False)

    def boo_ok(ctx, got, what):
        ctx.exact(np.asarray(got), polar.roi(8, 8, (4, 4), (1, 3), superpixels=False)[0], what)
    res.append(("boolean roi", boo, boo_ok))
    for name, a, args, kw in (("nrgf", A, (4, 4, 0), {}), ("nrgf sector", A, (4, 4, 1), dict(step=2, phi_to_mean=[0, 180], output_phi=[90, 360])),
                              ("nrgf small", B, (3, 4, 0), {})):
        def fn(a=a, args=args, kw=kw):
            return ml.nrgf(a, *args, **kw)

        def ok(ctx, got, what, a=a, args=args, kw=kw):
            want, free = polar.nrgf(a, *args, **kw)
            ctx.same(np.where(free, want, got), want, what, rtol=1e-8)
        res.append((name, fn, ok))

    def mask():
        im = ml.MicropolImage(A)
        im.mask_occulter(4, 4, 3)
        return im

    def mask_ok(ctx, got, what):
        m = MaskModel(ml.MicropolImage(A), False)
        m.mask(4, 4, 3, 0.0)
        m.compare(ctx, got, what)
    res.append(("mask_occulter", mask, mask_ok))
    return res


def overwrite(r):
    for a in (r,) if isinstance(r, np.ndarray) else (r.data, r.Stokes_vec):
        a = np.asarray(a)
        if a.flags.writeable:
            a[...] = True if a.dtype == bool else -99.0


def run_history(s, ctx):
    cs = calls()

    def rec(hist, depth):
        for k in range(len(cs)) if len(hist) >= len(s["prefix"]) else [s["prefix"][len(hist)]]:
            name, fn, ok = cs[k]
            r = fn()
            ok(ctx, r, f"{name} after " + ", ".join(cs[j][0] for j in hist))
            overwrite(r)
            ctx.step()
            if depth > 1:
                rec(hist + [k], depth - 1)
            else:
                ctx.trace()
                ctx.state("history", hist, k)
    # cold cache: the process may already have seen other shapes, so use every order and overwritten results
    rec([], s["depth"])


def run_camera(s, ctx):
    cam = ml.PolarCam()
    y, x, r = cam.occulter_pos_last
    h, w = cam.h_image, cam.w_image
    over = s["over"]
    d = ref.code(h, w)
    kw = dict(overoccult=over) if over else {}
    sel, _ = polar.roi(h, w, (y, x), [r + over, 5000])
    ctx.exact(cam.occulter_roi(d, **kw), np.where(sel, d, 0.0), f"occulter_roi, overoccult {over}")
    ctx.exact(cam.occulter_roi(d, fill=-3.0, **kw), np.where(sel, d, -3.0), f"occulter_roi with fill, overoccult {over}")
    for rmax in (None, 800, 700.0):
        m = np.asarray(cam.occulter_mask(rmax=rmax, **kw)) if rmax is not None else np.asarray(cam.occulter_mask(**kw))
        want, _ = polar.roi(h, w, (y, x), [r + over, min(y, x) if rmax is None else rmax])
        ctx.check(m.dtype == bool, "occulter_mask is not boolean")
        ctx.exact(m, want, f"occulter_mask, overoccult {over}, rmax {rmax}")
        ctx.step()
        ctx.state("cam", over, rmax)
    ctx.exact(d, ref.code(h, w), "data given to occulter_roi")
    im = ml.MicropolImage(d)
    model = MaskModel(im, False)
    im.mask_occulter(**kw)
    model.mask(y, x, r + over, 0.0)
    model.compare(ctx, im, f"default occulter masking, overoccult {over}")
    ctx.trace()
