"""Symmetries: the same scene in other units, transposed, mirrored, turned, moved or repeated goes through every operation of the real library; the oracle is the result of the original scene."""
import os

import numpy as np
import micropolarray as ml
from micropolarray.processing.nrgf import nrgf
from mc import calib, fitsio, ref
from mc.core import Violation
from mc.props import c16

BOUNDS = {
    "quick": "48 orientation assignments x 10 geometric symmetries (transposition, mirrors, turns, moves by superpixels, repetition) x units of 2^-40, 1/8, 4 and 2^20, alone and combined; 6 kinds of image "
             "(raw, 3 demosaicing modes, demodulated with and without demosaicing) of 8x12 and 12x8 pixels through 34 operations with all their operands; every transposed, mirrored, moved and scaled calibration of 8x12 "
             "pixels on 3 process grids with dark, flat, occulter and binning",
    "thorough": "as quick with every symmetry in every unit, 5 frame sizes, and units 2^-20 and 2^40",
}
ASSUMPTIONS = ["values stay within the range of the number types", "interpolations which treat the lower and upper neighbour differently (adjacent demosaicing, field of view, 2x2 medians) and the superpixel grid of regions are only transposed", "a move wraps round, so it is used for superpixel-wise operations only"]
RULE = "scaled by powers of two results are equal up to 1e-9 of the largest value; geometric symmetries likewise"
# a symmetry moves frame elements; T transposes, H mirrors columns, V mirrors rows
GEO = ("same", "T", "H", "V", "HV", "TH", "TV", "THV", "move", "repeat")


def geo(a, g):
    """Applied to the last two axes of a frame."""
    if g == "move":
        return np.roll(a, (2, -4), axis=(-2, -1))
    if g == "repeat":
        return np.tile(a, (1,) * (a.ndim - 2) + (2, 2))
    for c in g if g != "same" else "":
        a = np.swapaxes(a, -2, -1) if c == "T" else a[..., :, ::-1] if c == "H" else a[..., ::-1, :]
    return np.array(a)


def geo_super(a, g, n=1):
    """The same for a map of superpixels (binned n times)."""
    if g == "move":
        return np.roll(a, (1, -2), axis=(-2, -1))
    return geo(a, g)


def places(g):
    """places[j]: where position j of a superpixel comes to lie."""
    p = np.array([[0, 1], [2, 3]])
    q = geo(p, g) if g not in ("move", "repeat") else p
    return [int(np.argwhere(q.ravel() == j)[0, 0]) for j in range(4)]


class Scene:
    def __init__(self, kind, h, w, dic, g="same", k=0, salt=0):
        self.g, self.u, self.kind = g, 2.0 ** k, kind
        to = places(g)
        self.dic = {a: to[p] for a, p in dic.items()}
        f = lambda a: geo(a, g)
        base = ref.code(h, w, salt=3 + salt)
        arr = ref.code(h, w, salt=50 + salt)
        self.frame, self.arr = f(base) * self.u, f(arr) * self.u
        self.ratio = f(1.0 + arr / 1000.0)
        self.h, self.w = self.frame.shape
        new = lambda a: ml.MicropolImage(a, angle_dic=dict(self.dic))
        self.im = new(self.frame)
        self.other = new(self.arr)
        self.dark = new(f(np.floor(arr / 3) + 0.5) * self.u)
        self.flat = new(f(arr + 500.0))
        self.unflat = new(self.ratio)
        self.flags = new(f((np.arange(h * w).reshape(h, w) % 5 == 0) * 1.0))
        self.err = np.sqrt(f(arr)) * self.u
        M, F = c16.matrices(h // 2, w // 2, 2 + salt), (np.arange(h * w // 4) % 3 != 0).astype(float).reshape(h // 2, w // 2)
        M2 = np.empty_like(M)
        M2 = np.array([[geo_super(M[i, [q for q in range(4) if to[q] == j][0]], g) for j in range(4)] for i in range(3)])
        c16.folder(W_["d"] / "cal", M2, geo_super(F, g))
        self.dem = ml.Demodulator(str(W_["d"] / "cal"))
        if kind in ("mean", "adjacent", "spline"):
            self.im.demosaic(kind)
        elif kind == "demodulated":
            self.im = self.im.demodulate(self.dem)
        elif kind == "demodulated demosaiced":
            self.im = self.im.demodulate(self.dem, demosaicing=True)

    def vec(self, dy, dx):
        for c in self.g if self.g not in ("same", "move", "repeat") else "":
            dy, dx = (dx, dy) if c == "T" else (dy, -dx) if c == "H" else (-dy, dx)
        return dy, dx

    def point(self, y, x):
        h, w = (self.w, self.h) if "T" in self.g else (self.h, self.w)   # original size
        for c in self.g if self.g not in ("same", "move", "repeat") else "":
            if c == "T":
                y, x, h, w = x, y, w, h
            elif c == "H":
                x = w - 1 - x
            else:
                y = h - 1 - y
        return y, x

    def size(self, y, x):
        return (x, y) if "T" in self.g and self.g not in ("same", "move", "repeat") else (y, x)


W_ = {}
KINDS = ("raw", "mean", "adjacent", "spline", "demodulated", "demodulated demosaiced")


def inplace(fn):
    def g(t):
        fn(t)
        return t.im
    return g


def saved(fn):
    def g(t):
        d = W_["d"] / "out"
        calib.fresh(str(d))
        os.makedirs(d)
        fn(t, str(d / "a.fits"))
        return {n: fitsio.read(d / n)[1] for n in sorted(os.listdir(d))}
    return g


def loaded(t, **kw):
    fitsio.write(W_["d"] / "x.fits", t.frame)
    fitsio.write(W_["d"] / "y.fits", t.arr)
    return ml.MicropolImage([str(W_["d"] / "x.fits"), str(W_["d"] / "y.fits")], angle_dic=dict(t.dic), **kw)


ALL = GEO
NOMOVE = ("same", "T", "H", "V", "HV", "TH", "TV", "THV")
TONLY = ("same", "T")
# name -> (function, geometric symmetries, power of the unit in data, kinds or None)
OPS = {
    "maps": (lambda t: t.im, ALL, 1, None),
    "copy": (lambda t: ml.MicropolImage(t.im), ALL, 1, None),
    "load mean": (lambda t: loaded(t), ALL, 1, ("raw",)),
    "load sum": (lambda t: loaded(t, averageimages=False), ALL, 1, ("raw",)),
    "+ image": (lambda t: t.im + t.other, ALL, 1, None),
    "- image": (lambda t: t.im - t.other, ALL, 1, None),
    "* image": (lambda t: t.im * t.other, ALL, 2, None),
    "/ image": (lambda t: t.im / t.other, ALL, 0, None),
    "- array": (lambda t: t.im - t.arr, ALL, 1, None),
    "* number": (lambda t: t.im * 2.7, ALL, 1, None),
    "/ number": (lambda t: t.im / 2.7, ALL, 1, None),
    "rebin": (lambda t: t.im.rebin(2), NOMOVE + ("repeat",), 1, None),
    "shift": (lambda t: t.im.shift(*t.vec(1, -2)), NOMOVE, 1, None),
    "shift more": (lambda t: t.im.shift(*t.vec(-3, 2)), NOMOVE, 1, None),
    "congrid": (lambda t: t.im.congrid(*t.size(6, 10)), NOMOVE, 1, ("raw", "mean", "demodulated")),
    "congrid up": (lambda t: t.im.congrid(*t.size(16, 14)), NOMOVE, 1, ("raw", "mean", "demodulated")),
    "clean": (lambda t: t.im.clean_hot_pixels(t.flags), TONLY, 1, ("raw",)),
    "hot": (lambda t: ml.get_hot_pixels(t.im, 0.2), TONLY, 0, ("raw",)),
    "demodulate": (lambda t: t.im.demodulate(t.dem), ALL, 1, ("raw",)),
    "demodulate demosaicing": (lambda t: t.im.demodulate(t.dem, demosaicing=True), ALL, 1, ("raw",)),
    "errors": (lambda t: ml.MicropolImageError(t.im, t.err, t.dem), ALL, 1, ("raw", "demodulated")),
    "save": (saved(lambda t, n: t.im.save_as_fits(n)), ALL, 1, None),
    "save parameters": (saved(lambda t, n: t.im.save_all_pol_params_as_fits(n)), ALL, None, None),
    "save orientations": (saved(lambda t, n: t.im.save_single_pol_images(n)), ALL, 1, None),
    "save demosaiced": (saved(lambda t, n: t.im.save_demosaiced_images_as_fits(n)), ALL, 1, ("mean", "adjacent", "spline")),
    "radial filter": (lambda t: nrgf(np.array(t.frame), *t.point(3, 5), 1, 2), NOMOVE, 0, ("raw",)),
    "demosaic": (inplace(lambda t: t.im.demosaic("mean")), ALL, 1, None),
    "demosaic adjacent": (inplace(lambda t: t.im.demosaic("adjacent")), ALL, 1, None),
    "demosaic spline": (inplace(lambda t: t.im.demosaic("spline")), NOMOVE, 1, None),
    "dark": (inplace(lambda t: t.im.subtract_dark(t.dark)), ALL, 1, None),
    "flat": (inplace(lambda t: t.im.correct_flat(t.flat)), ALL, 1, None),
    "both": (inplace(lambda t: t.im.subtract_dark(t.dark).correct_flat(t.flat)), ALL, 1, None),
    "ifov": (inplace(lambda t: t.im.correct_ifov()), TONLY, 1, None),
    "mask": (inplace(lambda t: t.im.mask_occulter(*t.size(6, 6), 3)), TONLY, 1, None),
}
# powers of the unit in the maps of a result whose data has the given power
MAPS = {"S": 1, "pI": 1, "pB": 1, "DoLP": 0, "AoLP": 0}


def scenarios(tier, seed):
    q = tier == "quick"
    sizes = [(8, 12)] if q else [(8, 12), (12, 8), (4, 4), (12, 12), (8, 20)]
    for op in OPS:
        for kind in OPS[op][3] or KINDS:
            for h, w in sizes:
                yield dict(t="op", op=op, kind=kind, h=h, w=w, salt=seed, units=(-40, -3, 2, 20) if q else (-40, -20, -3, 2, 20, 40), all=not q)
    for g in GEO:
        yield dict(t="dics", g=g, salt=seed)
    for g in GEO:
        for conf in range(4):
            yield dict(t="calib", g=g, conf=conf, k=(-3, 0, 2, 8)[(GEO.index(g) + conf) % 4])


def run(s, ctx):
    if "d" not in W_:
        W_["d"] = ctx.scratch / "c46"
        calib.fresh(str(W_["d"]))
        os.makedirs(W_["d"])
    try:
        globals()["run_" + s["t"]](s, ctx)
    finally:
        import matplotlib.pyplot as plt
        plt.close("all")
    ctx.trace()


def parts(r, power):
    """name -> (array, power of the unit, is an angle)"""
    if isinstance(r, ml.MicropolImage):
        o = {"data": (np.array(r.data, float), power, False)}
        for n, k in (("I", 1), ("Q", 1), ("U", 1), ("pB", 1), ("DoLP", 0), ("AoLP", 0)):
            o[n] = (np.array(getattr(r, n).data, float), k * power, n == "AoLP")
        o["Stokes_vec"] = (np.array(r.Stokes_vec, float), power, False)
        if r.demosaiced_images is not None:
            for a in (0, 45, 90, -45):
                o[f"demosaiced {a}"] = (np.array(r.demosaiced_images[r.angle_dic[a]], float), power, False)
        return o
    if isinstance(r, ml.MicropolImageError):
        return {"sigma_S": (np.array(r.sigma_S), 1, False), "sigma_pB": (np.array(r.sigma_pB), 1, False), "sigma_DoLP": (np.array(r.sigma_DoLP), 0, False), "sigma_AoLP": (np.array(r.sigma_AoLP), 0, False)}
    if isinstance(r, dict):
        return {k: (np.array(v, float), power if power is not None else 0 if ("DoLP" in k or "AoLP" in k) else 1, "AoLP" in k) for k, v in r.items()}
    return {"result": (np.array(r, float), power, False)}


def compare(ctx, got, want, g, k, what):
    ctx.check(sorted(got) == sorted(want), f"{what}: other results")
    for n in want:
        a, p, ang = want[n]
        b = got[n][0]
        small = a.shape[-1] % 2 or a.shape[-2] % 2 or not full(a)
        exp = (geo_super(a, g) if small and g == "move" else geo(a, g)) * 2.0 ** (k * p)
        ctx.check(b.shape == exp.shape, f"{what}: {n} of shape {b.shape} instead of {exp.shape}")
        if ang:     # angles are equal modulo the half turn, and free where nothing is polarized
            d = np.abs((b - exp + 90.0) % 180.0 - 90.0)
            ctx.check(bool(((d < 1e-6) | ~np.isfinite(exp) | ~np.isfinite(b)).all()), lambda: f"{what}: {n} differs by {np.nanmax(d)} degrees")
        else:
            ctx.same(b, exp, f"{what}: {n}", rtol=1e-9)


FULL = {}


def full(a):
    return a.shape[-2:] in ((FULL["h"], FULL["w"]), (FULL["w"], FULL["h"]))


def run_op(s, ctx):
    fn, syms, power, _ = OPS[s["op"]]
    h, w = s["h"], s["w"]
    FULL.update(h=h, w=w)
    for di, dic in enumerate((ref.dic_of(13), ref.dic_of(4))):
        def go(g, k):
            t = Scene(s["kind"], h, w, dic, g, k, s["salt"])
            p = power
            try:
                return parts(fn(t), p)
            except Violation:
                raise
            except Exception as e:  # noqa
                raise Violation(f"{s['op']} of a {s['kind']} image ({g}, unit 2^{k}): {e!r}")
        want = go("same", 0)
        adj = s["kind"] in ("adjacent", "demodulated demosaiced") or s["op"] in ("demodulate demosaicing", "demosaic adjacent")
        spline = s["kind"] == "spline" and not s["op"].startswith("demosaic")
        for gi, g in enumerate(syms):
            if adj and g not in TONLY or spline and g in ("move", "repeat"):
                continue
            units = (0,) + s["units"] if s["all"] or g in ("same", "T") else (0, s["units"][gi % len(s["units"])])
            for k in units:
                if (g, k) == ("same", 0):
                    continue
                compare(ctx, go(g, k), want, g, k, f"{s['op']} of a {s['kind']} image, symmetry {g}, unit 2^{k}")
                ctx.step()
                ctx.state(s["kind"], s["op"], g, k, di)
                ctx.outcome(s["op"], g)


def run_dics(s, ctx):
    h, w = 8, 12
    FULL.update(h=h, w=w)
    for n in range(48):
        want = parts(Scene("raw", h, w, ref.dic_of(n), "same", 0, s["salt"]).im, 1)
        for k in (0, 4):
            got = parts(Scene("raw", h, w, ref.dic_of(n), s["g"], k, s["salt"]).im, 1)
            compare(ctx, got, want, s["g"], k, f"maps with assignment {n}, symmetry {s['g']}, unit 2^{k}")
            ctx.step()
        ctx.state("dic", n, s["g"])


CONF = (dict(), dict(dark=True, flat=True), dict(occ=True), dict(binning=2, dark=True))


def run_calib(s, ctx):
    h, w = 8, 12
    c = CONF[s["conf"]]
    b = c.get("binning", 1)
    phases = [0, 45, -45, 90]
    angles = [0, 45, 90, -45, 20]
    S = 700.0
    if b == 1:
        sens = calib.Sensor(h, w, phases, salt=4)
    else:
        sens = calib.Sensor(h, w, phases, salt=4, block=2)
    # noisy frames: fits and chi squares with content
    yy, xx = np.mgrid[0:h, 0:w]
    frames = [sens.frame(S, a) * (1.0 + 0.004 * ((yy * 3 + xx * 5 + 7 * i) % 5 - 2)) for i, a in enumerate(angles)]
    dark, flat = 3.0 + (yy + 2 * xx) % 4, 400.0 + 10.0 * ((yy * 5 + xx) % 7)

    def go(g, k, n):
        u = 2.0 ** k
        d = W_["d"] / f"cal{n}"
        calib.fresh(str(d))
        os.makedirs(d)
        to = places(g)
        ph = [0] * 4
        for j in range(4):
            ph[to[j]] = phases[j]
        fr = [geo(f, g) * u for f in frames]
        kw = dict(normalizing_S=S * u, gain=2.75 / u, binning=b)
        if c.get("dark"):
            fr = [f + geo(dark, g) * u for f in fr]
            calib.write(str(d / "dark.fits"), geo(dark, g) * u)
            kw["dark_filename"] = str(d / "dark.fits")
        if c.get("flat"):
            calib.write(str(d / "flat.fits"), geo(flat, g) * u)
            kw["flat_filename"] = str(d / "flat.fits")
        H, W = fr[0].shape
        if c.get("occ"):
            y, x = (4, 6)
            if "T" in g and g not in ("same",):
                y, x = x, y
            kw["occulter"] = [y, x, 3]
        kw["procs_grid"] = [[1, 1], [2, 1], [1, 2]][(GEO.index(g) + s["conf"]) % 3] if g != "same" and b == 1 else [1, 1]
        files = calib.write_frames(str(d / "frames"), fr)
        try:
            dem = calib.calibrate(angles, files, ph, d / "out", **kw)
        except Exception as e:  # noqa
            raise Violation(f"calibration {c}, symmetry {g}, unit 2^{k}: {e!r}")
        r = calib.load_all(d / "out")
        mij = np.array([[r[f"M{i}{to[j]}.fits"] for j in range(4)] for i in range(3)])
        o = {n: v for n, v in r.items() if not n.startswith("M")}
        o["matrices"] = mij
        return o

    if c.get("occ") and s["g"] not in TONLY:
        return
    g = s["g"]
    want = go("same", 0, 0)
    for k in (0, s["k"] or 1):
        if (g, k) == ("same", 0):
            continue
        got = go(g, k, 1)
        ctx.check(sorted(got) == sorted(want), f"calibration {c}, symmetry {g}, unit 2^{k}: other files")
        for n in want:
            half = n == "matrices" or "flag" in n
            if b == 2 and g == "move":
                exp = np.roll(want[n], (1, -2) if not half else (0, 0), axis=(-2, -1))
                continue        # a move by one superpixel of the binned frame is two of the frame
            exp = geo_super(want[n], g) if half else geo(want[n], g)
            ctx.check(got[n].shape == exp.shape, f"calibration {c}, symmetry {g}, unit 2^{k}: {n} of shape {got[n].shape}")
            ctx.same(got[n], exp, f"calibration {c}, symmetry {g}, unit 2^{k}: {n}", rtol=1e-4 if "cov" in n else 2e-6)
        ctx.step()
        ctx.state("calib", g, s["conf"], k)
        ctx.outcome("calib", g)
