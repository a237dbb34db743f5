"""Unusable readings (not a number, infinite) in one element of one operand: every element, every operation, and only what depends on that element may change."""
import os

import numpy as np
import micropolarray as ml
from micropolarray.processing.nrgf import nrgf
from mc import calib, fitsio, ref
from mc.core import Violation
from mc.props import c16

BOUNDS = {
    "quick": "8 kinds of image (raw mosaic, 2 demosaicing modes, demodulated with and without demosaicing, masked, plain Image, single-precision) x 35 operations x every element of the frame and "
             "of each operand (second image, array, dark, flat, flags, errors, matrix elements and flags) of 6x8 pixels x {nan, inf, -inf}; every pixel of every frame, dark and maximum signal of a "
             "calibration of 4x4 and 4x6 pixels x 3 values x process grids 1x1 and 2x1; polar regions, radial filter, profiles",
    "thorough": "as quick with 8x12 pixels and every pair of unusable elements for 8 operations",
}
ASSUMPTIONS = ["spline interpolation is left out: every pixel depends on every other", "maps of one position count as one: a dead pixel of a superpixel may make all maps of this superpixel unusable",
               "which value the dependent elements take is otherwise left to the other properties", "clamped saving, rotation, radial filter and hot-pixel replacement may turn a dead pixel into a number"]
RULE = "the elements which differ among runs with four different finite values of the reading, widened to all maps of the same position, are those which may change"
DIC = ref.dic_of(13)
KINDS = ["float", "single", "mean", "adjacent", "demodulated", "demodulated demosaiced", "masked", "Image"]
DEAD = (np.nan, np.inf, -np.inf)
FINITE = (1.0, -0.6, 0.0, 41.0)    # multiples of the reading, then something is added
OPEN = ("save clamped", "rotate 90", "rotate 180", "radial filter", "clean")    # whether a result which depends on a dead pixel is a number, is left open
W_ = {}


def world(scratch, h, w):
    if W_.get("size") == (h, w):
        return
    d = scratch / f"c45_{h}"
    calib.fresh(str(d))
    os.makedirs(d)
    W_.update(d=d, size=(h, w))
    W_["M"] = c16.matrices(h // 2, w // 2, 2)
    W_["F"] = (np.arange(h * w // 4) % 3 != 0).astype(float).reshape(h // 2, w // 2)


def arrays(h, w):
    arr = ref.code(h, w, salt=50)
    return dict(frame=ref.code(h, w, salt=3), other=arr, dark=np.floor(arr / 50) + 0.5, flat=arr + 500.0,
                flags=(np.arange(h * w).reshape(h, w) % 5 == 0) * 1.0, err=np.sqrt(arr))


class T:
    def __init__(self, kind, a, dem):
        self.kind, self.a, self.dem = kind, a, dem
        d = np.array(a["frame"])
        self.h, self.w = d.shape
        new = (lambda x: ml.Image(np.array(x))) if kind == "Image" else (lambda x: ml.MicropolImage(np.array(x), angle_dic=dict(DIC)))
        if kind == "single":
            d = d.astype("f4")
        im = new(d)
        if kind in ("mean", "adjacent"):
            im.demosaic(kind)
        elif kind == "demodulated":
            im = im.demodulate(dem)
        elif kind == "demodulated demosaiced":
            im = im.demodulate(dem, demosaicing=True)
        elif kind == "masked":
            im.demosaic("mean")
            im.mask_occulter(self.h // 2, self.w // 2, 1, fill=7)
        self.im = im
        self.other, self.dark, self.flat, self.flags = (new(a[k]) for k in ("other", "dark", "flat", "flags"))
        self.arr, self.err = np.array(a["other"]), np.array(a["err"])


def saved(fn):
    """Every map which fn(name) writes, read by the independent reader."""
    def g(t):
        d = W_["d"] / "out"
        calib.fresh(str(d))
        os.makedirs(d)
        fn(t, str(d / "a.fits"))
        return {n: fitsio.read(d / n)[1] for n in sorted(os.listdir(d))}
    return g


def loaded(fn):
    def g(t):
        d = W_["d"]
        fitsio.write(d / "x.fits", t.a["frame"])
        fitsio.write(d / "y.fits", t.a["other"])
        return fn(str(d / "x.fits"), str(d / "y.fits"))
    return g


def done(fn):
    def g(t):
        fn(t.im)
        return t.im
    return g


def inplace(fn):
    def g(t):
        fn(t)
        return t.im
    return g


def setdata(im, v):
    im.data = v


# name -> (function of T, operands whose elements are made unusable, kinds or None)
RAW = ("float", "single")
MOSAIC = ("float", "single", "mean", "adjacent", "demodulated", "demodulated demosaiced", "masked")
F, FO = ("frame",), ("frame", "other")
OPS = {
    "maps": (lambda t: t.im, F, None),
    "copy": (lambda t: type(t.im)(t.im), F, None),
    "create corrected": (lambda t: ml.MicropolImage(np.array(t.a["frame"]), angle_dic=dict(DIC), dark=t.dark, flat=t.flat), ("frame", "dark", "flat"), RAW),
    "copy corrected": (lambda t: ml.MicropolImage(t.im, dark=t.dark, flat=t.flat), ("frame", "dark", "flat"), RAW),
    "load": (loaded(lambda x, y: ml.MicropolImage(x)), F, ("float",)),
    "load mean": (loaded(lambda x, y: ml.MicropolImage([x, y])), FO, ("float",)),
    "load sum": (loaded(lambda x, y: ml.MicropolImage([x, y], averageimages=False)), FO, ("float",)),
    "load plain": (loaded(lambda x, y: ml.Image([x, y])), FO, ("Image",)),
    "+ image": (lambda t: t.im + t.other, FO, None),
    "- image": (lambda t: t.im - t.other, FO, None),
    "* image": (lambda t: t.im * t.other, FO, None),
    "/ image": (lambda t: t.im / t.other, FO, None),
    "+ array": (lambda t: t.im + t.arr, FO, None),
    "* number": (lambda t: t.im * 2.5, F, None),
    "rebin": (lambda t: t.im.rebin(2), F, None),
    "shift": (lambda t: t.im.shift(1, -2), F, None),
    "shift more": (lambda t: t.im.shift(-2, 2), F, None),
    "rotate 90": (lambda t: t.im.rotate(90), F, RAW),
    "rotate 180": (lambda t: t.im.rotate(180), F, RAW),
    "clean": (lambda t: t.im.clean_hot_pixels(t.flags), ("frame",), RAW),
    "demodulate": (lambda t: t.im.demodulate(t.dem), ("frame", "M", "flag"), RAW),
    "demodulate demosaicing": (lambda t: t.im.demodulate(t.dem, demosaicing=True), ("frame", "M", "flag"), RAW),
    "errors": (lambda t: ml.MicropolImageError(t.im, t.err, t.dem), ("frame", "err", "M"), RAW + ("demodulated",)),
    "save": (saved(lambda t, n: t.im.save_as_fits(n)), F, None),
    "save clamped": (saved(lambda t, n: t.im.save_as_fits(n, fixto=[10, 500])), F, None),
    "save parameters": (saved(lambda t, n: t.im.save_all_pol_params_as_fits(n)), F, MOSAIC),
    "save orientations": (saved(lambda t, n: t.im.save_single_pol_images(n)), F, MOSAIC),
    "save demosaiced": (saved(lambda t, n: t.im.save_demosaiced_images_as_fits(n)), F, ("mean", "adjacent")),
    "region": (lambda t: ml.roi_from_polar(np.array(t.im.data), (t.h // 2, t.w // 2), [1, 2.5]), F, RAW),
    "radial filter": (lambda t: nrgf(np.array(t.a["frame"]), t.h // 2, t.w // 2, 1, 1), F, RAW),
    "demosaic": (done(lambda im: im.demosaic("mean")), F, MOSAIC),
    "demosaic adjacent": (done(lambda im: im.demosaic("adjacent")), F, MOSAIC),
    "dark": (inplace(lambda t: t.im.subtract_dark(t.dark)), ("frame", "dark"), MOSAIC),
    "flat": (inplace(lambda t: t.im.correct_flat(t.flat)), ("frame", "flat"), MOSAIC),
    "ifov": (done(lambda im: im.correct_ifov()), F, MOSAIC),
    "mask": (done(lambda im: im.mask_occulter(3, 4, 2)), F, MOSAIC),
    "set data": (inplace(lambda t: setdata(t.im, t.arr * 2)), FO, MOSAIC),
}


def scenarios(tier, seed):
    q = tier == "quick"
    h, w = (6, 8) if q else (8, 12)
    for kind in KINDS:
        for op, (_, operands, kinds) in OPS.items():
            if kind in (kinds or KINDS):
                for o in operands:
                    yield dict(t="op", kind=kind, op=op, operand=o, h=h, w=w)
    for h, w, grid in ((4, 4, [1, 1]), (4, 6, [1, 1]), (8, 4, [2, 1])):
        for what in ("frame 0", "frame 1", "frame 3", "dark", "S"):
            yield dict(t="calib", h=h, w=w, grid=grid, what=what, every=1 if q and grid == [1, 1] or not q else 3)


def run(s, ctx):
    try:
        globals()["run_" + s["t"]](s, ctx)
    finally:
        import matplotlib.pyplot as plt
        plt.close("all")
    ctx.trace()


def planes(r):
    """name -> (2-D or stack of 2-D maps, True if the maps of one position count as one)"""
    if isinstance(r, ml.MicropolImage):
        o = {"data": np.array(r.data)[None], "maps": np.concatenate([np.array(r.Stokes_vec)] + [np.array(p.data)[None] for p in r.polparam_list])}
        if r.demosaiced_images is not None:
            for k, d in enumerate(r.demosaiced_images):
                o[f"demosaiced {k}"] = np.array(d)[None]
        return o
    if isinstance(r, ml.Image):
        return {"data": np.array(r.data)[None]}
    if isinstance(r, ml.MicropolImageError):
        return {"errors": np.concatenate([np.array(getattr(r, k), float)[None] if np.ndim(getattr(r, k)) == 2 else np.array(getattr(r, k), float).reshape(-1, *np.shape(getattr(r, k))[-2:])
                                          for k in sorted(vars(r)) if isinstance(getattr(r, k), np.ndarray) and np.ndim(getattr(r, k)) >= 2 and np.shape(getattr(r, k))[-2:] == W_["eshape"]])}
    if isinstance(r, dict):
        return {k: np.array(v)[None] if np.ndim(v) == 2 else np.array(v) for k, v in r.items()}
    return {"result": np.array(r)[None]}


def unlike(a, b):
    return ~((a == b) | ((a != a) & (b != b)))


def run_op(s, ctx):
    h, w = s["h"], s["w"]
    world(ctx.scratch, h, w)
    fn = OPS[s["op"]][0]
    base = arrays(h, w)
    o = s["operand"]
    W_["eshape"] = (h // 2, w // 2)

    def go(where=None, v=None):
        a = {k: np.array(x) for k, x in base.items()}
        M, Fl = W_["M"].copy(), W_["F"].copy()
        if where is not None:
            x = M if o == "M" else Fl if o == "flag" else a[o]
            x[where] = v
        if "dem" not in W_ or o in ("M", "flag"):
            c16.folder(W_["d"] / "cal", M, Fl)
            dem = ml.Demodulator(str(W_["d"] / "cal"))
            if o not in ("M", "flag"):
                W_["dem"] = dem
        else:
            dem = W_["dem"]
        try:
            return planes(fn(T(s["kind"], a, dem)))
        except Violation:
            raise
        except Exception as e:  # noqa
            raise Violation(f"{s['op']} of a {s['kind']} image with {v} at {where} of the {o}: {e!r}")

    if o in ("M", "flag"):
        W_.pop("dem", None)
    want = go()
    shape = W_["M"].shape if o == "M" else W_["F"].shape if o == "flag" else (h, w)
    spots = list(np.ndindex(*shape))
    if o == "M":
        spots = spots[::5]
    for p in spots:
        x0 = (W_["M"] if o == "M" else W_["F"] if o == "flag" else base[o])[p]
        dep = {k: np.zeros(v.shape[-2:], bool) for k, v in want.items()}
        finite = [x0 * f + (2.25 if f != 1 else 0.125) for f in FINITE] if o not in ("flag", "flags") else [0.0, 1.0]
        for v in finite:
            got = go(p, v)
            for k in dep:
                dep[k] |= unlike(got[k], want[k]).any(axis=0)
        if s["op"] in ("rotate 90", "rotate 180"):      # interpolated: neighbours with weight zero
            for k in dep:
                dep[k] |= True if k != "data" else near(dep[k])
        for v in DEAD if o not in ("flag", "flags") else (np.nan,):
            got = go(p, v)
            ctx.check(sorted(got) == sorted(want), f"{s['op']} of a {s['kind']} image with {v} at {p} of the {o}: other results than usual")
            for k in want:
                ctx.check(got[k].shape == want[k].shape, f"{s['op']} of a {s['kind']} image with {v} at {p} of the {o}: {k} of another shape")
                bad = unlike(got[k], want[k]) & ~dep[k]
                ctx.check(not bad.any(), lambda: f"{s['op']} of a {s['kind']} image with {v} at {p} of the {o}: {k} changed at {np.argwhere(bad)[0].tolist()}, which does not depend on it "
                                                 f"({got[k][bad][0]} instead of {want[k][bad][0]})")
                if v != v and s["op"] not in OPEN and o != "flag":
                    fine = np.isfinite(got[k]).all(axis=0) & dep[k]
                    ctx.check(not fine.any(), lambda: f"{s['op']} of a {s['kind']} image with {v} at {p} of the {o}: {k} at {np.argwhere(fine)[0].tolist()} depends on it, but is {got[k][:, fine][:, 0]}")
            ctx.step()
        ctx.state(s["kind"], s["op"], o, p)
        ctx.outcome(s["op"], o, sum(int(x.sum()) for x in dep.values()))


def near(m):
    r = m.copy()
    for dy in range(-4, 5):
        for dx in range(-4, 5):
            r |= np.roll(np.roll(m, dy, 0), dx, 1)
    return r


def run_calib(s, ctx):
    h, w = s["h"], s["w"]
    d = ctx.scratch / "c45cal"
    calib.fresh(str(d))
    phases = [0, 45, 90, -45]
    angles = [0, 45, 90, -45, 20]
    sens = calib.Sensor(h, w, phases, salt=4)
    S = 700.0
    frames = [sens.frame(S, a) + 3.0 for a in angles]
    dark = np.full((h, w), 3.0)
    S_im = np.full((h, w), S)
    kw = dict(procs_grid=s["grid"])

    def go(where=None, v=None):
        fr, dk, si = [f.copy() for f in frames], dark.copy(), S_im.copy()
        if where is not None:
            (dk if s["what"] == "dark" else si if s["what"] == "S" else fr[int(s["what"].split()[1])])[where] = v
        calib.fresh(str(d))
        files = calib.write_frames(str(d / "frames"), fr)
        calib.write(str(d / "dark.fits"), dk)
        kw["dark_filename"] = str(d / "dark.fits")
        kw["normalizing_S"] = si if s["what"] == "S" else S
        try:
            calib.calibrate(angles, files, phases, d / "out", **kw)
        except Exception as e:  # noqa
            raise Violation(f"calibration with {v} at {where} of {s['what']}: {e!r}")
        return calib.load_all(d / "out")

    want = go()
    for k, p in enumerate(np.ndindex(h, w)):
        if k % s["every"]:
            continue
        for v in DEAD:
            got = go(p, v)
            ctx.check(sorted(got) == sorted(want), f"calibration with {v} at {p} of {s['what']}: other files")
            for n in want:
                f = h // want[n].shape[0]
                b = unlike(got[n], want[n])
                y, x = p[0] // 2 * 2 // f, p[1] // 2 * 2 // f
                b[y:y + 2 // f, x:x + 2 // f] = False
                ctx.check(not b.any(), lambda: f"calibration with {v} at {p} of {s['what']}: {n} changed at {np.argwhere(b)[0].tolist()}, in another superpixel")
            ctx.step()
            if v < 0:
                continue    # below the dark, with which it counts as black
            flag = [n for n in want if "fit_found" in n]
            theo = calib.theoretical(phases)
            y, x = p[0] // 2, p[1] // 2
            for n in flag:
                ctx.check(got[n][y, x] == 0, f"calibration with {v} at {p} of {s['what']}: the superpixel is flagged as calibrated")
            for i in range(3):
                for j in range(4):
                    ctx.same(got[f"M{i}{j}.fits"][y, x], theo[i, j], f"calibration with {v} at {p} of {s['what']}: M{i}{j} of the unusable superpixel", atol=1e-9)
        ctx.state(s["what"], h, w, p)
        ctx.outcome(s["what"], p)
