"""Exhaustive enumeration of flag maps, hot-pixel positions and thresholds through the real cleaning and detection."""
import itertools
from fractions import Fraction

import numpy as np
import micropolarray as ml
from mc import ref
from mc.core import Violation

BOUNDS = {
    "quick": "all even frames 2..10 x 2..10, a hot pixel at every position x 3 strengths x 5 thresholds; all 65536 flag maps of a 4x4 frame and all 256 of a superpixel pair inside 6x8; "
             "flag values other than 1; 24 assignments; 4 pixel types; all families over 3 values",
    "thorough": "frames up to 16 x 16 and 9 thresholds, all flag maps on 3 different frames",
}
STRENGTH = (3.0, 20.0, 1.0e6)


def scenarios(tier, seed):
    q = tier == "quick"
    for h in range(2, 12 if q else 18, 2):
        for w in range(2, 12 if q else 18, 2):
            yield dict(t="hot", h=h, w=w, k=seed, q=q)
    for kind in ("code",) if q else ("code", "holes", "signed"):
        for part in range(16):
            yield dict(t="flags", part=part, kind=kind, k=seed)
    for kind in ("code", "signed", "huge"):
        yield dict(t="values", kind=kind, k=seed)
    for dt in ("f8", "f4", ">f4", "u2", "i4"):
        yield dict(t="dics", dt=dt, k=seed)
    yield dict(t="medians", k=seed)


def run(s, ctx):
    globals()["run_" + s["t"]](s, ctx)


def same_image(ctx, im, data, dic, what):
    ctx.exact(im.data, data, f"{what}: data")
    ctx.check(dict(im.angle_dic) == dict(dic), f"{what}: orientations {im.angle_dic}")
    ctx.same(im.Stokes_vec, ref.stokes(ref.split(data), dic), f"{what}: Stokes maps")


def snap(im):
    return (im.data.tobytes(), im.data.dtype, im.Stokes_vec.tobytes(), str(im.angle_dic))


def clean(ctx, im, flags, what):
    d = np.asarray(im.data, dtype=float)
    b = snap(im), snap(flags)
    out = im.clean_hot_pixels(flags)
    ctx.check((snap(im), snap(flags)) == b, f"{what}: arguments changed")
    ctx.check(out is not im and isinstance(out, ml.MicropolImage), f"{what}: returned {type(out)}")
    same_image(ctx, out, ref.clean_hot(d, flags.data), im.angle_dic, what)
    f = np.asarray(flags.data)
    ctx.exact(np.asarray(out.data)[f != 1], d[f != 1], f"{what}: unflagged pixels")
    ctx.step()


def detect(ctx, im, thr, what, margin=1e-9):
    d = np.asarray(im.data, dtype=float)
    b = snap(im)
    out = ml.get_hot_pixels(im, thr)
    ctx.check(snap(im) == b, f"{what}: image changed")
    fam = ref.split(d)
    med = np.stack([ref.median2(f) for f in fam])
    with np.errstate(all="ignore"):
        con = (fam - med) / (fam + med)
    want = ref.merge((con > thr) * 1.0)
    sure = ~(np.abs(con - thr) <= margin)  # ties within rounding are left open, exact ones are not
    for i in zip(*np.nonzero(~sure)):
        p, q = Fraction(float(fam[i])), Fraction(float(med[i]))
        sure[i] = p - q == Fraction(thr) * (p + q)
    sure = ref.merge(sure * 1.0) == 1
    got = np.asarray(out.data, dtype=float)
    ctx.check(got.shape == d.shape and np.isin(got, (0, 1)).all(), f"{what}: map of {got.shape}, values {np.unique(got)[:4]}")
    ctx.exact(got[sure], want[sure], f"{what}: map")
    ctx.check(dict(out.angle_dic) == dict(im.angle_dic), f"{what}: orientations of the map")
    ctx.step()
    return out


def run_hot(s, ctx):
    h, w = s["h"], s["w"]
    d0 = np.floor(ref.code(h, w, salt=s["k"]))
    for y in range(h):
        for x in range(w):
            for n, v in enumerate(STRENGTH):
                d = np.full((h, w), 10.0) if n != 1 else 900.0 + d0 % 100
                d[y, x] *= v
                dic = ref.dic_of((y * w + x + n) % 48)
                im = ml.MicropolImage(d.copy(), angle_dic=dic)
                for thr in (0.0, 0.3, 0.5, 0.9, 1.0) if s["q"] else (0.0, 0.1, 0.3, 0.45, 0.5, 0.7, 0.9, 0.99, 1.0):
                    what = f"{h}x{w}, hot pixel {(y, x)} of strength {v}, threshold {thr}"
                    m = detect(ctx, im, thr, what)
                    if n != 1 and thr == 0.3:  # uniform background: exactly this pixel, and cleaning removes it
                        one = ref.impulse(h, w, y, x)
                        edge = y < 2 or x < 2  # the reflected neighbourhood holds it twice
                        if not edge:
                            ctx.exact(m.data, one, f"{what}: map")
                            clean(ctx, im, m, what)
                            ctx.exact(im.clean_hot_pixels(m).data, np.full((h, w), 10.0), f"{what}: cleaned")
                    clean(ctx, im, m, what)
                    ctx.state(h, w, y, x, v, thr)
                    ctx.outcome(np.asarray(m.data))
    ctx.exact(ml.get_hot_pixels(ml.MicropolImage(d0.copy())).data, np.zeros((h, w)), "default threshold")
    ctx.trace()


def run_flags(s, ctx):
    d = ref.frame(s["kind"], 4, 4, salt=s["k"])
    im = ml.MicropolImage(d.copy(), angle_dic=ref.dic_of(s["part"]))
    fl = ml.MicropolImage(np.zeros((4, 4)))
    for n in range(s["part"] * 4096, (s["part"] + 1) * 4096):
        bits = ((n >> np.arange(16)) & 1).reshape(4, 4).astype(float)
        fl = ml.MicropolImage(bits)
        want = ref.clean_hot(d, bits)
        out = im.clean_hot_pixels(fl)
        ctx.exact(out.data, want, f"flags {n:04x} on a 4x4 frame")
        ctx.same(out.Stokes_vec, ref.stokes(ref.split(want), im.angle_dic), f"flags {n:04x}: Stokes maps")
        ctx.step()
        ctx.state(s["kind"], n)
    # a superpixel pair inside a larger frame
    big = ref.frame(s["kind"], 6, 8, salt=s["k"] + 1)
    im = ml.MicropolImage(big.copy())
    for n in range(s["part"] * 16, (s["part"] + 1) * 16):
        bits = np.zeros((6, 8))
        bits[2:4, 2:6] = ((n >> np.arange(8)) & 1).reshape(2, 4)
        clean(ctx, im, ml.MicropolImage(bits), f"flags {n:02x} inside 6x8")
        ctx.state(s["kind"], "big", n)
    ctx.trace()


def run_values(s, ctx):
    """Only 1 is a flag."""
    d = ref.frame(s["kind"], 4, 6, salt=s["k"])
    for vals in itertools.product((0.0, 1.0, 2.0, -1.0, 0.5), repeat=4):
        m = np.zeros((4, 6))
        m[2:4, 2:4] = np.array(vals).reshape(2, 2)
        m[0, 5] = vals[0]
        m[3, 0] = vals[1]
        im = ml.MicropolImage(d.copy())
        clean(ctx, im, ml.MicropolImage(m), f"flag values {vals}")
        ctx.state(s["kind"], vals)
    for thr in (-1.0, -0.5, -0.1, 0.0, 0.1, 0.25, 0.5, 0.75, 1.0, 2.0, 100):
        for h, w in [(4, 6), (8, 4)]:
            im = ml.MicropolImage(ref.frame(s["kind"], h, w, salt=s["k"] + 3))
            detect(ctx, im, thr, f"{s['kind']} frame, threshold {thr}")
            ctx.state(s["kind"], h, w, thr)
    ctx.trace()


def run_dics(s, ctx):
    for k in range(48):
        d = np.floor(ref.code(6, 4, salt=s["k"] + k)).astype(s["dt"])
        im = ml.MicropolImage(d, angle_dic=ref.dic_of(k))
        for thr in (0.2, 0.6):
            m = detect(ctx, im, thr, f"{s['dt']} assignment {k}, threshold {thr}")
            clean(ctx, im, m, f"{s['dt']} assignment {k}, threshold {thr}")
            # the map may carry another assignment: positions count
            clean(ctx, im, ml.MicropolImage(np.asarray(m.data), angle_dic=ref.dic_of((k + 7) % 24)), f"{s['dt']} assignment {k}, foreign map")
        ctx.state(s["dt"], k)
    ctx.trace()


def run_medians(s, ctx):
    """All families of 2x2 superpixels over three values: every order of the neighbourhood."""
    for v in itertools.product((1.0, 2.0, 5.0), repeat=4):
        fam = np.stack([np.roll(np.array(v), r).reshape(2, 2) for r in range(4)])
        d = ref.merge(fam)
        im = ml.MicropolImage(d)
        clean(ctx, im, ml.MicropolImage(np.ones((4, 4))), f"family {v}")
        for thr in (0.1, 0.4):
            detect(ctx, im, thr, f"family {v}, threshold {thr}")
        ctx.state(v)
    ctx.trace()
