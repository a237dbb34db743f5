"""Explicit enumeration of calibrations, flag maps and frames through the real demodulation."""
import itertools
import os

import numpy as np
import micropolarray as ml
from mc import calib, fitsio, ref
from mc.core import Violation

BOUNDS = {
    "quick": "all even frame sizes 2..10 x 2..10 with position-coded matrices; all 2^4 and 2^6 flag maps of 4x4 and 4x6 frames (values 1 and one of 0, -1, 0.5, 2); an "
             "impulse at every pixel of 5 sizes; all 48 orientation assignments; with and without demosaicing and flag file; plain, demosaiced "
             "(both modes), demodulated, rebinned and shifted inputs; all pairs of unequal sizes 2..10",
    "thorough": "frame sizes 2..16, also all 2^9 flag maps of 6x6 frames, pairs of unequal sizes 2..16",
}
VALUES = (0.0, -1.0, 0.5, 2.0)


def matrices(h, w, salt, kind="code"):
    """3, 4, h, w; every element and superpixel different."""
    m = np.array([[(ref.code(h, w, salt=13 * i + 3 * j + salt) - 900.0) / 256 for j in range(4)] for i in range(3)])
    if kind == "holes":
        m[:, :, ::2, ::3] = 0.0
    return m


def folder(d, m, flags):
    calib.fresh(d)
    os.makedirs(d)
    for i in range(3):
        for j in range(4):
            fitsio.write(f"{d}/M{i}{j}.fits", m[i, j])
    if flags is not None:
        fitsio.write(f"{d}/fit_found_flag.fits", np.asarray(flags))
    return ml.Demodulator(str(d))


def expected(d, m, flags, dic, demosaicing):
    if demosaicing:
        px = ref.demosaic(d, "adjacent")
        up = lambda a: a.repeat(2, axis=-2).repeat(2, axis=-1)
        m = up(m)
        flags = None if flags is None else up(np.asarray(flags))
    else:
        px = ref.split(d)
    S = np.zeros((3,) + px.shape[1:])
    for i in range(3):
        for j in range(4):
            S[i] += m[i, j] * px[j]
    if flags is not None:
        S = np.where(np.asarray(flags)[None] == 1, S, ref.stokes(px, dic))
    return S


def scenarios(tier, seed):
    q = tier == "quick"
    m = 10 if q else 16
    k = seed
    for h in range(2, m + 1, 2):
        for w in range(2, m + 1, 2):
            yield dict(t="size", h=h, w=w, k=k)
            k += 1
    for h, w in [(4, 4), (4, 6)] + ([] if q else [(6, 6)]):
        n = h * w // 4
        for lo in range(0, 2 ** n, 16):
            yield dict(t="flags", h=h, w=w, lo=lo, k=k)
            k += 1
    for h, w in [(2, 2), (2, 6), (4, 4), (6, 4), (6, 8)]:
        yield dict(t="impulse", h=h, w=w, k=k)
    for a in range(48):
        yield dict(t="dic", a=a, k=seed)
    for inp in INPUTS:
        for flags in (None, "mixed", "none", "all"):
            yield dict(t="input", inp=inp, flags=flags, k=k)
            k += 1
    for h in range(2, m + 1, 2):
        yield dict(t="mismatch", h=h, m=m, k=seed)


INPUTS = ("plain", "adjacent", "mean", "demodulated", "demodulated demosaiced", "rebinned", "shifted", "sum", "uint16", "big-endian")


def run(s, ctx):
    globals()["run_" + s["t"]](s, ctx)


def decide(ctx, im, d, dic, dem, m, flags, what):
    for demosaicing in (False, True):
        before = (np.array(im.data), np.array(im.Stokes_vec))
        r = im.demodulate(dem, demosaicing=demosaicing)
        w = f"{what}{', demosaicing' if demosaicing else ''}"
        ctx.same(r.Stokes_vec, expected(d, m, flags, dic, demosaicing), f"{w}: Stokes maps", rtol=1e-10)
        ctx.exact(r.data, d, f"{w}: pixel data of the result")
        ctx.exact(im.data, before[0], f"{w}: pixel data of the input")
        ctx.exact(im.Stokes_vec, before[1], f"{w}: Stokes maps of the input")
        if demosaicing:
            ctx.same(r.demosaiced_images, ref.demosaic(d, "adjacent"), f"{w}: demosaiced images")
        for n, v in (("I", 0), ("Q", 1), ("U", 2)):
            ctx.exact(getattr(r, n).data, r.Stokes_vec[v], f"{w}: {n}")
        ctx.exact(dem.mij, m, f"{w}: matrices of the calibration")
        if flags is not None:
            ctx.exact(dem.fit_found_flags, flags, f"{w}: flags of the calibration")
        ctx.step()
        ctx.state(what, demosaicing, d, flags)
        ctx.outcome(np.round(np.asarray(r.Stokes_vec), 5))
    ctx.trace()


def run_size(s, ctx):
    h, w, k = s["h"], s["w"], s["k"]
    dic = ref.dic_of(k % 48)
    for kind, mk in (("code", "code"), ("signed", "code"), ("holes", "holes")):
        d = ref.frame(kind, h, w, salt=k)
        m = matrices(h // 2, w // 2, k, mk)
        fl = ((np.arange(h * w // 4) * 7 + k) % 3 != 0).astype(float).reshape(h // 2, w // 2)
        for flags in (None, fl):
            dem = folder(ctx.scratch / "d", m, flags)
            im = ml.MicropolImage(d, angle_dic=dic)
            decide(ctx, im, d, dic, dem, m, flags, f"{kind} {h}x{w} frame, {'no flags' if flags is None else 'flags'}")


def run_flags(s, ctx):
    h, w, k = s["h"], s["w"], s["k"]
    n = h * w // 4
    dic = ref.dic_of(k % 48)
    d = ref.code(h, w, salt=k)
    m = matrices(h // 2, w // 2, k)
    im = ml.MicropolImage(d, angle_dic=dic)
    for mask in range(s["lo"], min(s["lo"] + 16, 2 ** n)):
        bits = np.array([mask >> b & 1 for b in range(n)], dtype=float).reshape(h // 2, w // 2)
        fl = np.where(bits == 1, 1.0, VALUES[mask % 4])
        if mask % 5 == 0:
            fl = bits.astype(np.int16)
        dem = folder(ctx.scratch / "d", m, fl)
        decide(ctx, im, d, dic, dem, m, fl, f"{h}x{w} frame, flags {fl.ravel().tolist()}")
        ctx.count("flag maps")


def run_impulse(s, ctx):
    h, w, k = s["h"], s["w"], s["k"]
    m = matrices(h // 2, w // 2, k)
    fl = (np.arange(h * w // 4) % 2).astype(float).reshape(h // 2, w // 2)
    dic = ref.dic_of(k % 48)
    for flags in (None, fl):
        dem = folder(ctx.scratch / "d", m, flags)
        for y in range(h):
            for x in range(w):
                d = ref.impulse(h, w, y, x)
                decide(ctx, ml.MicropolImage(d, angle_dic=dic), d, dic, dem, m, flags, f"{h}x{w} frame with one bright pixel at {y},{x}")


def run_dic(s, ctx):
    dic = ref.dic_of(s["a"])
    d = ref.code(4, 6, salt=s["a"])
    m = matrices(2, 3, s["a"])
    for flags in (None, np.zeros((2, 3)), np.array([[1, 0, 1], [0, 1, 0]], dtype=float)):
        dem = folder(ctx.scratch / "d", m, flags)
        decide(ctx, ml.MicropolImage(d, angle_dic=dic), d, dic, dem, m, flags, f"assignment {dic}")


def run_input(s, ctx):
    h, w, k = 6, 8, s["k"]
    dic = ref.dic_of(k % 48)
    d = np.floor(ref.code(h, w, salt=k))
    m = matrices(h // 2, w // 2, k)
    other = folder(ctx.scratch / "o", matrices(h // 2, w // 2, k + 50), None)
    flags = {None: None, "mixed": (np.arange(12) % 3 != 0).astype(float).reshape(3, 4), "none": np.zeros((3, 4)), "all": np.ones((3, 4))}[s["flags"]]
    inp = s["inp"]
    if inp == "uint16":
        im = ml.MicropolImage(d.astype(np.uint16), angle_dic=dic)
    elif inp == "big-endian":
        im = ml.MicropolImage(d.astype(">f4"), angle_dic=dic)
    elif inp == "rebinned":
        big = ref.code(2 * h, 2 * w, salt=k)
        im = ml.MicropolImage(big, angle_dic=dic).rebin(2)
        d = ref.rebin_mp(big, 2)
    else:
        im = ml.MicropolImage(d, angle_dic=dic)
    if inp in ("adjacent", "mean"):
        im.demosaic(inp)
    elif inp == "demodulated":
        im = im.demodulate(other)
    elif inp == "demodulated demosaiced":
        im = im.demodulate(other, demosaicing=True)
    elif inp == "shifted":
        im = im.shift(1, -1)
        d = ref.shift_mp(d, 1, -1, 0)
    elif inp == "sum":
        im = im + im
        d = d + d
    dem = folder(ctx.scratch / "d", m, flags)
    decide(ctx, im, d, dic, dem, m, flags, f"{inp} input, flags {s['flags']}")
    # twice in a row
    decide(ctx, im.demodulate(dem, demosaicing=True), d, dic, dem, m, flags, f"{inp} input demodulated before, flags {s['flags']}")


def run_mismatch(s, ctx):
    h, top = s["h"], s["m"]
    for w in range(2, top + 1, 2):
        im = ml.MicropolImage(ref.code(h, w), angle_dic=ref.dic_of(3))
        for H in range(1, top // 2 + 1):
            W0 = [1, w // 2, w, h // 2, 2 * w, 3]
            for W in sorted(set(W0)):
                if (2 * H, 2 * W) == (h, w):
                    continue
                for flags in (None, np.ones((H, W))):
                    dem = folder(ctx.scratch / "d", matrices(H, W, 1), flags)
                    for dm in (False, True):
                        ctx.raises(ValueError, lambda: im.demodulate(dem, demosaicing=dm),
                                   f"{h}x{w} image with a calibration of {H}x{W} superpixels{', flags' if flags is not None else ''}{', demosaicing' if dm else ''}")
                        ctx.step()
                        ctx.state("mismatch", h, w, H, W, flags is None, dm)
                        ctx.count("mismatches")
    ctx.trace()
