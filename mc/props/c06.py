import numpy as np
import micropolarray as ml
from mc import ref

BOUNDS = {
    "quick": "all ordered (pixel, dark) pairs over 8 values and all (pixel, dark, flat) triples over 5 values in one frame, 10x10 pixel "
             "types for dark, 10x4 for flat, constructor and method application in both orders, 24 assignments, every even shape 2..10",
    "thorough": "same with 48 assignments, every even shape 2..20 and 10x10 types for flat",
}
TYPES = ("f8", "f4", "u1", "u2", "u4", "u8", "i1", "i2", "i4", "i8", ">f8", ">i2", ">f4", ">u2")
VALS = (0, 1, 2, 7, 64, 100, 126, 127)
FLATS = (0, 1, 2, 5, 8)


def warmup():
    im = ml.MicropolImage(ref.code(4, 4))
    ml.MicropolImage(im, dark=im, flat=im)


def scenarios(tier, seed):
    q = tier == "quick"
    for mode in ("dark", "flat", "both_init", "dark_then_flat", "flat_then_dark", "both_copy", "again"):
        for k in range(24 if q else 48):
            yield dict(mode=mode, k=k, ta="f8", tb="f8", tc="f8", shape=None)
        n = 10 if q else 20
        for h in range(2, n + 1, 2):
            for w in range(2, n + 1, 2):
                yield dict(mode=mode, k=(h + w) % 24, ta="f8", tb="f8", tc="f8", shape=[h, w])
    for ta in TYPES:
        for tb in TYPES:
            yield dict(mode="dark", k=3, ta=ta, tb=tb, tc="f8", shape=None)
            yield dict(mode="both_init", k=3, ta=ta, tb=tb, tc=tb, shape=None)
        for tc in (TYPES[:4] if q else TYPES):
            yield dict(mode="flat", k=4, ta=ta, tb="f8", tc=tc, shape=None)


def m_dark(d, dark):
    return np.maximum(np.asarray(d, float) - np.asarray(dark, float), 0.0)


def m_flat(d, flat):
    d = np.asarray(d, float)
    f = np.asarray(flat, float)
    f = f / f.mean()
    out = d.copy()
    out[f != 0] = d[f != 0] / f[f != 0]
    return out


def run(s, ctx):
    mode, k = s["mode"], s["k"]
    if s["shape"] is None:
        va = np.array([(a, b, c) for a in VALS for b in VALS for c in FLATS])  # 320 triples
        a, b, c = (va[:, i].reshape(16, 20) for i in range(3))
        if s["ta"] == "f8":
            a = a - 40.25
            b = b * 0.5 - 3
    else:
        h, w = s["shape"]
        a = ref.frame("signed", h, w)
        b = ref.frame("code", h, w, 3) * 0.5
        c = ref.frame("holes", h, w, 1)
    a, b, c = a.astype(s["ta"]), b.astype(s["tb"]), c.astype(s["tc"])
    dic = ref.dic_of(k)
    D = ml.MicropolImage(b, angle_dic=ref.dic_of((k + 5) % 24))
    F = ml.MicropolImage(c, angle_dic=ref.dic_of((k + 9) % 24))
    D.header["KIND"] = "dark"
    F.header["KIND"] = "flat"
    DS, FS = np.array(D.Stokes_vec), np.array(F.Stokes_vec)
    what = f"{mode} ({s['ta']} pixels, {s['tb']} dark, {s['tc']} flat, orientations {dic}): "
    src = ml.MicropolImage(a, angle_dic=dic)
    if mode == "dark":
        im = ml.MicropolImage(a, angle_dic=dic)
        r = im.subtract_dark(D)
        im2 = ml.MicropolImage(a, angle_dic=dic, dark=D)
        ims, want = [im, im2] + ([r] if r is not None else []), m_dark(a, b)
    elif mode == "flat":
        im = ml.MicropolImage(a, angle_dic=dic)
        r = im.correct_flat(F)
        im2 = ml.MicropolImage(a, angle_dic=dic, flat=F)
        ims, want = [im, im2] + ([r] if r is not None else []), m_flat(a, c)
    elif mode == "both_init":
        ims, want = [ml.MicropolImage(a, angle_dic=dic, dark=D, flat=F), ml.MicropolImage(a, dic, D, F)], m_flat(m_dark(a, b), c)
    elif mode == "both_copy":
        ims, want = [ml.MicropolImage(src, dark=D, flat=F)], m_flat(m_dark(a, b), c)
    elif mode == "dark_then_flat":
        im = ml.MicropolImage(a, angle_dic=dic)
        im.subtract_dark(D)
        im.correct_flat(F)
        ims, want = [im], m_flat(m_dark(a, b), c)
    elif mode == "flat_then_dark":
        im = ml.MicropolImage(a, angle_dic=dic)
        im.correct_flat(flat=F)
        im.subtract_dark(dark=D)
        ims, want = [im], m_dark(m_flat(a, c), b)
    else:  # the same calibration frames used for several images, twice on one
        im = ml.MicropolImage(a, angle_dic=dic)
        im.subtract_dark(D)
        im.subtract_dark(D)
        im3 = ml.MicropolImage(a, angle_dic=dic, dark=D)
        im3.subtract_dark(D)
        ims, want = [im, im3], m_dark(m_dark(a, b), b)
    rt = 1e-11 if all("f4" not in t for t in (s["ta"], s["tb"], s["tc"])) else 2e-6
    for im in ims:
        ctx.same(im.data, want, what + "data", rtol=rt)
        if mode == "dark":
            ctx.check(bool(np.all(np.asarray(im.data) >= 0)), what + "negative pixel after dark correction")
        if mode in ("flat",):
            z = np.asarray(c) == 0
            ctx.check(bool(np.all(np.asarray(im.data)[z] == a[z])), what + "pixels with zero flat are changed")
        ctx.same(im.Stokes_vec, ref.stokes(ref.split(want), dic), what + "Stokes maps", rtol=rt)
        ctx.check(dict(im.angle_dic) == dic, what + "orientations changed")
        ctx.step()
    for cal, raw, S, kind in ((D, b, DS, "dark"), (F, c, FS, "flat")):
        ctx.exact(cal.data, raw, what + f"{kind} image changed")
        ctx.exact(cal.Stokes_vec, S, what + f"{kind} image Stokes maps changed")
        ctx.check(cal.header["KIND"] == kind, what + f"{kind} header changed")
    ctx.exact(src.data, a, what + "source image changed")
    ctx.trace()
    ctx.state(mode, k, s["ta"], s["tb"], s["tc"], s["shape"])
    ctx.outcome(np.asarray(ims[0].data).ravel()[:40])
