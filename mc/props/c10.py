"""Explicit exploration of every (source shape, target size) pair and of every whole-degree rotation."""
import os

import numpy as np
import micropolarray as ml
from mc import ref
from mc.core import Violation

BOUNDS = {
    "quick": "resizing: all even source shapes 4..10 x 4..10, all target sizes 4..13 x 4..13 (odd ones included), plain and demosaiced and "
             "demodulated images; rotation: all whole degrees -360..720 on 5 shapes, plain and demosaiced, all frame kinds",
    "thorough": "resizing: source shapes 4..14, targets 4..20; rotation: all half degrees -720..720 on 8 shapes",
}
ASSUMPTIONS = ["families have at least 2x2 pixels before and after resizing (linear interpolation of one pixel is undefined)",
               "rotation is checked on values that are exact in 32-bit floats (the imaging library's pixel format)"]


def demod(h, w, scratch):
    from astropy.io import fits
    d = f"{scratch}/dem{h}x{w}"
    if not os.path.isdir(d):
        os.makedirs(d)
        for i in range(3):
            for j in range(4):
                fits.PrimaryHDU(np.floor(ref.code(h // 2, w // 2, salt=10 * i + j) / 8) / 16 - 8).writeto(f"{d}/M{i}{j}.fits")
    return ml.Demodulator(d)


def build(h, w, mode, kind, k, scratch, fine=ref.FINE):
    d = ref.frame(kind, h, w, salt=k, fine=fine)
    im = ml.MicropolImage(d, angle_dic=ref.dic_of(k % 48))
    if mode == "demosaiced":
        im.demosaic("mean" if k % 2 else "adjacent")
    elif mode == "demodulated":
        im = im.demodulate(demod(h, w, scratch))
    return d, im


def scenarios(tier, seed):
    q = tier == "quick"
    m = 10 if q else 14
    k = seed
    for h in range(4, m + 1, 2):
        for w in range(4, m + 1, 2):
            for mode in ("plain", "demosaiced", "demodulated"):
                k += 1
                yield dict(t="congrid", h=h, w=w, mode=mode, k=k, top=13 if q else 20)
    shapes = [(8, 8), (10, 10), (14, 14), (8, 12), (12, 6)] + ([] if q else [(4, 4), (20, 20), (4, 16)])
    for h, w in shapes:
        for mode in ("plain", "demosaiced", "demodulated"):
            for kind in ("code", "signed", "holes"):
                k += 1
                for lo in range(-360 if q else -720, 720, 60):
                    yield dict(t="rotate", h=h, w=w, mode=mode, kind=kind, k=k, lo=lo, step=1.0 if q else 0.5)


def run(s, ctx):
    h, w = s["h"], s["w"]
    if s["t"] == "congrid":
        for kind in ("code", "signed"):
            d, im = build(h, w, s["mode"], kind, s["k"], ctx.scratch)
            S = np.array(im.Stokes_vec)
            dem = None if im.demosaiced_images is None else np.array(im.demosaiced_images)
            fam = ref.split(d)
            for H in range(4, s["top"] + 1):
                for W in range(4, s["top"] + 1):
                    what = f"{s['mode']} {h}x{w} image resized to ({H}, {W})"
                    r = im.congrid(H, W)
                    H2, W2 = H - H % 2, W - W % 2
                    ctx.same(r.data, ref.merge([ref.congrid(f, (H2 // 2, W2 // 2)) for f in fam]), f"{what}: data")
                    ctx.check((r.height, r.width, r.header["NAXIS2"], r.header["NAXIS1"]) == (H2, W2, H2, W2), f"{what}: recorded size")
                    ctx.same(r.Stokes_vec, np.array([ref.congrid(c, (H2, W2)) for c in S]), f"{what}: Stokes maps", rtol=1e-8)
                    if dem is not None:
                        ctx.same(r.demosaiced_images, np.array([ref.congrid(c, (H2, W2)) for c in dem]), f"{what}: demosaiced images")
                    ctx.check(dict(r.angle_dic) == ref.dic_of(s["k"] % 48), f"{what}: orientations")
                    ctx.step()
                    ctx.state(h, w, H, W, s["mode"], kind)
                    ctx.outcome(np.round(np.asarray(r.data), 6))
                    # the array function alone
                    if kind == "code":
                        ctx.same(ml.congrid(d, [H, W]), ref.congrid(d, (H, W)), f"congrid {h}x{w} -> {H}x{W}")
            ctx.exact(im.data, d, "source data")
            ctx.trace()
        return
    d, im = build(h, w, s["mode"], s["kind"], s["k"], ctx.scratch, fine=0)
    fam = ref.split(d)
    S = np.array(im.Stokes_vec)
    dem = None if im.demosaiced_images is None else np.array(im.demosaiced_images)
    a = float(s["lo"])
    while a < s["lo"] + 60:
        angle = int(a) if a == int(a) and int(a) % 2 else a
        r = im.rotate(angle)
        what = f"{s['mode']} {h}x{w} image rotated by {angle}"
        ctx.check(np.shape(r.data) == (h, w), f"{what}: shape")
        out = ref.split(r.data)
        quarter = a % 90 == 0 and (h == w or a % 180 == 0)
        for k in range(4):
            if quarter:
                ctx.exact(out[k], np.rot90(fam[k], int(a // 90) % 4), f"{what}: family {k}")
            near(ctx, out[k], fam[k], a, f"{what}: family {k}")
        for k in range(3):
            if quarter:
                ctx.same(np.asarray(r.Stokes_vec)[k], np.rot90(S[k], int(a // 90) % 4), f"{what}: Stokes map {k}", rtol=1e-7)
            near(ctx, np.asarray(r.Stokes_vec)[k], S[k], a, f"{what}: Stokes map {k}")
        if dem is not None:
            for k in range(4):
                near(ctx, np.asarray(r.demosaiced_images)[k], dem[k], a, f"{what}: demosaiced image {k}")
        ctx.step()
        ctx.state(h, w, a, s["mode"], s["kind"])
        ctx.outcome(np.asarray(r.data))
        a += s["step"]
    ctx.exact(im.data, d, "source data")
    ctx.exact(im.Stokes_vec, S, "source Stokes maps")
    ctx.trace()


_grid = {}


def near(ctx, out, src, a, what):
    """Each output pixel is 0 or one of the source pixels next to its rotated position; never 0 well inside the frame
    unless the source is."""
    h, w = src.shape
    key = (h, w, a)
    if key not in _grid:
        if len(_grid) > 300:
            _grid.clear()
        t = np.deg2rad(a)
        y, x = np.mgrid[0:h, 0:w]
        dy, dx = y + 0.5 - h / 2, x + 0.5 - w / 2
        # counter-clockwise on the displayed image (y downwards): the output at p comes from p turned clockwise
        sx = np.cos(t) * dx - np.sin(t) * dy + w / 2
        sy = np.sin(t) * dx + np.cos(t) * dy + h / 2
        iy, ix = np.floor(sy).astype(int), np.floor(sx).astype(int)
        inside = (sy > 1) & (sy < h - 1) & (sx > 1) & (sx < w - 1)
        idx = []
        for ey in (-1e-6, 1e-6):
            for ex in (-1e-6, 1e-6):
                jy, jx = np.floor(sy + ey).astype(int), np.floor(sx + ex).astype(int)
                idx.append((np.clip(jy, -1, h), np.clip(jx, -1, w)))
        wide = [(np.clip(iy + b, -1, h), np.clip(ix + c, -1, w)) for b in (-1, 0, 1) for c in (-1, 0, 1)]
        _grid[key] = (inside, idx, wide)
    inside, idx, wide = _grid[key]
    p = np.full((h + 2, w + 2), np.nan)
    p[1:-1, 1:-1] = src
    scale = max(np.abs(src).max(), 1e-30)
    ok = out == 0
    zero_ok = ~inside
    for jy, jx in wide:
        v = p[jy + 1, jx + 1]
        with np.errstate(all="ignore"):
            ok |= np.abs(out - v) <= 1e-6 * scale
            zero_ok |= v == 0
    ctx.check(bool(ok.all()), lambda: f"{what}: pixel {np.argwhere(~ok)[0].tolist()} is {out[~ok][0]}, not a pixel near the rotated position")
    bad = (out == 0) & ~zero_ok
    ctx.check(not bad.any(), lambda: f"{what}: pixel {np.argwhere(bad)[0].tolist()} is lost")
    # at least three quarters of the inner pixels come from exactly the nearest position
    if inside.any():
        hit = np.zeros(out.shape, bool)
        for jy, jx in idx:
            with np.errstate(all="ignore"):
                hit |= np.abs(out - p[jy + 1, jx + 1]) <= 1e-6 * scale
        n = int(inside.sum())
        ctx.check(int((hit & inside).sum()) >= 0.75 * n, lambda: f"{what}: only {int((hit & inside).sum())} of {n} inner pixels are at "
                                                               "the rotated position")
