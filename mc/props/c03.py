"""Stateless exploration of the full operation-sequence tree on real images against a reference image."""
import numpy as np
import micropolarray as ml
from mc import ref
from mc.core import Violation
from mc.props import c16

BOUNDS = {
    "quick": "every sequence of up to 3 of 22 operations, the last one also of 7 operations with neutral or extreme parameters, from 3 initial "
             "images (12x16 fresh, 8x12 demosaiced, 16x12 integer copy) and every sequence of up to 4 of 8 core operations; a demodulation, with or without demosaicing, "
             "before and after every operation and between any two, or followed by any two; all maps "
             "compared after every operation",
    "thorough": "every sequence of up to 4 of 22 operations (the last one also of 7 more) from the same 3 initial images, up to 3 from 6 more (other orientations and "
                "pixel types), up to 6 of 8 core operations from one image; a demodulation before and after up to two operations from 9 images",
}
OPS = ["copy", "rebin2", "rebin1", "rebin3", "shift+", "shift-", "demo_mean", "demo_adj", "demo_spline", "dark", "flat", "ifov", "clean",
       "+num", "*num", "/num", "+img", "-img", "*demo", "/img", "-arr", "newdef"]
assert len(OPS) == 22
# operations which leave the pixels as they are, or replace all of them: only as the last of a sequence
OPS += ["shift0", "shiftout", "*1", "+0", "-0img", "clean0", "dark0"]
MAIN = range(22)
N_OPS = len(OPS)
NEUTRAL = ["rebin1", "shift0", "*1", "+0", "-0img", "clean0", "dark0"]
DEMOD = ["demodulate", "demodulate+"]
OPS += DEMOD  # only around the others
CORE = [OPS.index(o) for o in ("copy", "rebin2", "shift+", "demo_mean", "demo_adj", "dark", "clean", "+img")]


def warmup():
    im = ml.MicropolImage(ref.code(12, 16), angle_dic=ref.dic_of(3))
    for o in OPS:
        try:
            R = RefImage(np.array(im.data), ref.dic_of(3))
            apply(im, R, o)
        except Exception:
            pass


class RefImage:
    def __init__(self, data, dic, mode=None):
        self.data = np.array(data, dtype=float)
        self.dic = dict(dic)
        self.mode = mode
        self.stokes = None  # maps which are not the theoretical ones of the data: those of a demodulation
        self.maybe = None  # also right: those of a demodulation, as nothing has changed the data since

    def clone(self, data=None, mode="keep"):
        return RefImage(self.data if data is None else data, self.dic, self.mode if mode == "keep" else mode)


def partner(shape, salt, dic, demo=False):
    p = ml.MicropolImage(ref.frame("holes" if salt % 2 else "code", *shape, salt=salt), angle_dic=dic)
    if demo:
        p.demosaic("mean")
    return p


def enabled(shape, op):
    h, w = shape
    if op == "rebin2":
        return min(h, w) >= 4
    if op == "rebin3":
        return min(h, w) >= 6
    if op == "demo_spline":
        return min(h, w) >= 4
    return True


SCRATCH = [None]
CALIBRATIONS = {}


def calibration(shape):
    """A calibration of position-coded matrices for images of this shape; every third superpixel has no fit."""
    if shape not in CALIBRATIONS:
        hs, ws = shape[0] // 2, shape[1] // 2
        m = c16.matrices(hs, ws, 1)
        flags = (np.arange(hs * ws).reshape(hs, ws) % 3 != 1) * 1.0
        d = SCRATCH[0] / f"cal{hs}x{ws}"
        CALIBRATIONS[shape] = (c16.folder(d, m, flags), m, flags)
    return CALIBRATIONS[shape]


def apply(im, R, op):
    """Applies op to the real image and to the reference; returns both."""
    d, sh = R.data, R.data.shape
    if op == "copy":
        N = R.clone()
        N.stokes, N.maybe = R.stokes, R.maybe
        return ml.MicropolImage(im), N
    if op.startswith("demodulate"):
        dem, m, flags = calibration(sh)
        N = R.clone(mode="adjacent" if op[-1] == "+" else None)
        N.stokes = c16.expected(d, m, flags, R.dic, op[-1] == "+")
        return im.demodulate(dem, demosaicing=op[-1] == "+"), N
    if op.startswith("rebin"):
        n = int(op[5:])
        return im.rebin(n), R.clone(ref.rebin_mp(d, n))
    if op == "shift+":
        return im.shift(1, 2, missing=3.5), R.clone(ref.shift_mp(d, 1, 2, 3.5))
    if op == "shift-":
        return im.shift(-1, 0), R.clone(ref.shift_mp(d, -1, 0, 0.0))
    if op == "shift0":
        return im.shift(0, 0), R.clone()
    if op == "shiftout":
        return im.shift(sh[0], -sh[1], missing=-2.0), R.clone(np.full(sh, -2.0))
    if op in ("*1", "+0", "-0img"):
        r = im * 1 if op == "*1" else im + 0 if op == "+0" else im - ml.MicropolImage(np.zeros(sh), angle_dic=ref.dic_of(4))
        return r, R.clone(mode=None if r.demosaiced_images is None and op != "-0img" else R.mode)
    if op == "clean0":
        return im.clean_hot_pixels(ml.MicropolImage(np.zeros(sh))), R.clone()
    if op == "dark0":
        im.subtract_dark(ml.MicropolImage(np.zeros(sh)))
        return im, R.clone(np.maximum(d, 0.0))
    if op.startswith("demo_"):
        m = dict(mean="mean", adj="adjacent", spline="spline")[op[5:]]
        im.demosaic(m)
        return im, R.clone(mode=m)
    if op == "dark":
        D = partner(sh, 2, ref.dic_of(7), demo=True)
        im.subtract_dark(D)
        return im, R.clone(np.maximum(d - D.data, 0.0))
    if op == "flat":
        F = partner(sh, 3, ref.dic_of(11))
        f = F.data / F.data.mean()
        im.correct_flat(F)
        out = d.copy()
        out[f != 0] = d[f != 0] / f[f != 0]
        return im, R.clone(out)
    if op == "ifov":
        im.correct_ifov()
        return im, R.clone(ref.ifov(d))
    if op == "clean":
        flags = (np.add.outer(np.arange(sh[0]) * 3, np.arange(sh[1])) % 5 == 0) * 1.0
        return im.clean_hot_pixels(ml.MicropolImage(flags)), R.clone(ref.clean_hot(d, flags))
    if op in ("+num", "*num", "/num", "-arr"):
        if op == "+num":
            r, w = im + 2.5, d + 2.5
        elif op == "*num":
            r, w = im * 0.5, d * 0.5
        elif op == "/num":
            r, w = im / 4, d / 4
        else:
            a = ref.code(*sh, salt=9) * 0.25
            r, w = im - a, d - a
        # the result may or may not be demosaiced: it has to be consistent either way
        m = None if r.demosaiced_images is None else R.mode
        return r, R.clone(w, mode=m)
    if op == "newdef":
        ml.set_default_angles(ref.dic_of(13))
        return im, R
    P = partner(sh, 4, ref.dic_of(2), demo=(op == "*demo"))
    if op == "+img":
        return im + P, R.clone(d + P.data)
    if op == "-img":
        return im - P, R.clone(d - P.data)
    if op == "*demo":
        return im * P, R.clone(d * (P.data * 1.0))
    if op == "/img":
        P = partner(sh, 5, ref.dic_of(2))
        out = np.zeros(sh)
        nz = P.data != 0
        out[nz] = d[nz] / P.data[nz]
        return im / P, R.clone(out)
    raise KeyError(op)


def verify(ctx, im, R, what):
    h, w = R.data.shape
    ctx.same(im.data, R.data, what + ": data", rtol=1e-10)
    ctx.check((im.height, im.width) == (h, w), lambda: f"{what}: height/width {im.height}x{im.width}, data {h}x{w}")
    ctx.check(im.header["NAXIS1"] == w and im.header["NAXIS2"] == h,
              lambda: f"{what}: NAXIS1/2 = {im.header['NAXIS1']}/{im.header['NAXIS2']}, data {h}x{w}")
    ctx.check(dict(im.angle_dic) == R.dic, lambda: f"{what}: orientations {im.angle_dic} instead of {R.dic}")
    cur = np.array(im.data, dtype=float)
    if R.mode is None:
        ctx.check(im.demosaiced_images is None, f"{what}: has demosaiced images although it was not demosaiced")
        fam = ref.split(cur)
    else:
        ctx.check(im.demosaiced_images is not None, f"{what}: demosaiced images are lost")
        if R.mode == "spline":
            fam = np.stack([ref.congrid(f, (h, w)) for f in ref.split(cur)]) if min(h, w) >= 4 else np.asarray(im.demosaiced_images)
        else:
            fam = ref.demosaic(cur, R.mode)
        ctx.same(im.demosaiced_images, fam, f"{what}: demosaiced images are not the {R.mode} demosaicing of the data", rtol=1e-9)
    scale = max(1e-300, float(np.max(np.abs(fam))) if fam.size else 1.0)
    got = [im.I.data, im.Q.data, im.U.data]
    if R.maybe is not None and R.maybe.shape == np.shape(got) and np.allclose(got, R.maybe, rtol=1e-9, atol=4e-9 * scale):
        return
    if R.stokes is not None:
        ctx.same(got, R.stokes, f"{what}: I, Q, U", rtol=1e-9, atol=4e-9 * scale)
    else:
        ctx.same(got, ref.stokes(fam, R.dic), f"{what}: I, Q, U", atol=4e-9 * scale)


INITIAL = [(12, 16, 0, None, "f8"), (8, 12, 5, "mean", "f8"), (16, 12, 22, None, "i4"),
           (12, 12, 1, None, "f8"), (8, 8, 9, "adjacent", "f8"), (12, 8, 14, None, ">f4"), (16, 16, 17, "mean", "u2"),
           (12, 20, 19, None, "f8"), (20, 12, 23, "adjacent", "i2")]


def make(init):
    h, w, k, mode, dt = INITIAL[init]
    ml.set_default_angles(ref.dic_of(6))
    d = np.floor(ref.code(h, w)).astype(dt)
    im = ml.MicropolImage(d, angle_dic=ref.dic_of(k))
    if init == 2:
        im = ml.MicropolImage(im)
    if mode:
        im.demosaic(mode)
    return im, RefImage(d, ref.dic_of(k), mode)


def scenarios(tier, seed):
    q = tier == "quick"
    depth = 3 if q else 4
    for init in range(3):
        yield dict(init=init, prefix=[], depth=1)
        for a in MAIN:
            yield dict(init=init, prefix=[a], depth=2, last=1)
    for init in range(3) if q else range(len(INITIAL)):
        yield dict(init=init, prefix=[], demod=1, tail=list(MAIN))
        for a in MAIN:
            yield dict(init=init, prefix=[a], demod=1, tail=[] if q else list(MAIN))
        yield dict(init=init, prefix=[N_OPS], demod=1, tail=[])
        yield dict(init=init, prefix=[N_OPS + 1], demod=1, tail=[])
    # a scenario = a two-operation prefix with the full subtree below it
    for a in MAIN:
        for b in MAIN:
            for init in range(3):
                yield dict(init=init, prefix=[a, b], depth=depth)
    for init in range(3) if q else [0]:
        for a in CORE:
            for b in CORE:
                yield dict(init=init, prefix=[a, b], depth=4 if q else 6, core=1)
    if not q:
        for init in range(3, len(INITIAL)):
            for a in MAIN:
                for b in MAIN:
                    yield dict(init=init, prefix=[a, b], depth=3)


def names(init, hist):
    return f"initial image {init} (%dx%d, assignment %d, demosaiced %s, %s)" % INITIAL[init] + \
        ("" if not hist else ", then " + ", ".join(OPS[o] for o in hist))


def run(s, ctx):
    init = s["init"]

    def execute(hist):
        """Fresh real image; replays hist; verifies after the last operation (shorter prefixes are verified on their own)."""
        im, R = make(init)
        for n, o in enumerate(hist):
            if not enabled(R.data.shape, OPS[o]):
                return None
            if R.mode == "spline" and OPS[o].startswith("rebin") and not _spline_ok(R, OPS[o]):
                return None
            was = R.maybe if R.stokes is None else R.stokes
            try:
                im, R = apply(im, R, OPS[o])
            except Exception as e:
                raise Violation(f"{names(init, hist[:n + 1])}: {OPS[o]} raised {type(e).__name__}: {e}")
            if OPS[o] in NEUTRAL:
                R.maybe = was
            ctx.step()
        verify(ctx, im, R, names(init, hist))
        ctx.trace()
        ctx.state(np.asarray(R.data), sorted(R.dic.items()), R.mode)
        ctx.outcome(R.data.shape, R.mode)
        return R

    def subtree(hist):
        R = execute(hist)
        if R is None or len(hist) >= s["depth"]:
            return
        last = len(hist) == s["depth"] - 1
        for o in (CORE if s.get("core") else range(N_OPS) if last else MAIN):
            if not s.get("last") or o not in MAIN:
                subtree(hist + [o])

    SCRATCH[0] = ctx.scratch
    CALIBRATIONS.clear()
    if s.get("demod"):
        D = range(N_OPS, len(OPS))
        for d in D:
            h = list(s["prefix"]) + [d]
            if execute(h) is None:
                continue
            for b in range(N_OPS):
                if execute(h + [b]) is not None and b in MAIN:
                    for e in D:
                        execute(h + [b, e])
                    for e in s["tail"]:
                        execute(h + [b, e])
    elif not s["prefix"]:
        subtree([])
    else:
        subtree(list(s["prefix"]))


def _spline_ok(R, op):
    n = int(op[5:])
    h, w = (v // (2 * n) * 2 for v in R.data.shape)
    return min(h, w) >= 4
