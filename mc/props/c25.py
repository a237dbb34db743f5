"""Exhaustive impulse and formula enumeration of the field-of-view and Chen-Wan-Liang corrections."""
import os

import numpy as np
import micropolarray as ml
from mc import calib, fitsio, ref

BOUNDS = {
    "quick": "all even frames 2..12 x 2..12: an impulse at every pixel, position-coded frames, 48 assignments, 10 pixel types and layouts, repeated correction; Chen-Wan-Liang: all even frames 2..8 x 2..8, "
             "every one of the 16 matrix terms and 4 offsets alone in every superpixel, coded matrices, 6 data types, 3 path forms",
    "thorough": "frames up to 20 x 20, Chen-Wan-Liang up to 12 x 12",
}


def scenarios(tier, seed):
    q = tier == "quick"
    m = 12 if q else 20
    for h in range(2, m + 1, 2):
        for w in range(2, m + 1, 2):
            yield dict(t="ifov", h=h, w=w, k=seed)
    for dt in ("f8", "f4", ">f8", ">f4", "u1", "u2", "i2", ">i2", "i4", "i8"):
        yield dict(t="types", dt=dt, k=seed)
    m = 8 if q else 12
    for h in range(2, m + 1, 2):
        for w in range(2, m + 1, 2):
            yield dict(t="cwl", h=h, w=w, k=seed)
    for dt in ("f8", ">f8", "f4", ">f4", "i2", ">i2", "u2", "i4", "u1"):
        yield dict(t="cwltypes", dt=dt, k=seed)


def run(s, ctx):
    globals()["run_" + s["t"]](s, ctx)


def ifov(ctx, d, dic, what):
    c = np.array(d, copy=True)
    im = ml.MicropolImage(d, angle_dic=dic)
    want = ref.ifov(c)
    for n in range(2):  # and once more on its own result
        r = im.correct_ifov()
        ctx.check(isinstance(r, ml.MicropolImage), f"{what}: returned {type(r)}")
        ctx.same(r.data, want, f"{what}, pass {n}: data", rtol=1e-12)
        ctx.same(r.Stokes_vec, ref.stokes(ref.split(want), dic), f"{what}, pass {n}: Stokes maps", atol=1e-9 * max(1.0, np.abs(c).max()))
        ctx.check(dict(r.angle_dic) == dict(dic), f"{what}: orientations")
        ctx.step()
        want = ref.ifov(want)
        im = r
    ctx.check((d == c).all(), f"{what}: array of the caller changed")
    return r


def run_ifov(s, ctx):
    h, w = s["h"], s["w"]
    for y in range(h):
        for x in range(w):
            ifov(ctx, ref.impulse(h, w, y, x), ref.dic_of((y * w + x) % 48), f"impulse at {(y, x)} of {h}x{w}")
            ctx.state(h, w, y, x)
    for kind in ("code", "signed", "holes", "const", "zero", "huge", "tiny"):
        for k in range(48) if kind == "code" else (3, 30):
            r = ifov(ctx, ref.frame(kind, h, w, salt=s["k"]), ref.dic_of(k), f"{kind} frame {h}x{w}, assignment {k}")
            ctx.state(h, w, kind, k)
            ctx.outcome(np.asarray(r.data))
    ctx.trace()


def layouts(a):
    yield "C", np.ascontiguousarray(a)
    yield "F", np.asfortranarray(a)
    big = np.zeros((2 * a.shape[0], 3 * a.shape[1]), dtype=a.dtype)
    big[::2, ::3] = a
    yield "strided", big[::2, ::3]
    yield "reversed", np.ascontiguousarray(a[::-1, ::-1])[::-1, ::-1]
    r = a.copy()
    r.setflags(write=False)
    yield "readonly", r


def typed(a, dt):
    t = np.dtype(dt)
    return (np.floor(a) % 251 if t.kind in "iu" else a).astype(t)


def run_types(s, ctx):
    for h, w in [(2, 4), (6, 4), (8, 10)]:
        a = typed(ref.code(h, w, salt=s["k"]), s["dt"])
        for name, v in layouts(a):
            ifov(ctx, v, ref.dic_of(h), f"{s['dt']} {name} {h}x{w}")
            ctx.state(s["dt"], name, h, w)
    ctx.trace()


def store(d, C, off):
    calib.fresh(d)
    os.makedirs(d)
    for i in range(4):
        for j in range(4):
            fitsio.write(d / f"C{i}{j}.fits", C[i, j])
    fitsio.write(d / "d_ij.fits", off)


def model(data, C, off):
    h, w = data.shape
    out = np.zeros((h, w))
    p = np.asarray(data, dtype=float) - off
    for y in range(0, h, 2):
        for x in range(0, w, 2):
            v = [p[y, x], p[y, x + 1], p[y + 1, x], p[y + 1, x + 1]]
            for i in range(4):
                out[y + i // 2, x + i % 2] = sum(C[i, j, y, x] * v[j] for j in range(4))
    return ref.ifov(out)


def cwl(ctx, d, data, C, off, what, path=None, rtol=1e-9):
    keep = data.copy()
    files = {n: (d / n).read_bytes() for n in sorted(os.listdir(d))}
    got = ml.chen_wan_liang_calibration(data, str(d) if path is None else path)
    ctx.same(got, model(keep, C, off), what, atol=rtol * max(1.0, np.abs(keep.astype(float)).max()) * max(1.0, np.abs(C).max()))
    ctx.check(data.tobytes() == keep.tobytes(), f"{what}: data changed")
    ctx.check({n: (d / n).read_bytes() for n in sorted(os.listdir(d))} == files, f"{what}: stored matrices changed")
    ctx.step()
    ctx.state(what)
    ctx.outcome(np.asarray(got))


def whole(m):
    """One value per superpixel, repeated in its four pixels as the calibration stores it."""
    return m.repeat(2, axis=-2).repeat(2, axis=-1)


def run_cwl(s, ctx):
    h, w = s["h"], s["w"]
    d = ctx.scratch / "cwl"
    data = ref.code(h, w, salt=s["k"])
    n = (h // 2) * (w // 2)
    C = whole(np.stack([np.stack([ref.code(h // 2, w // 2, salt=s["k"] + 4 * i + j) / 1000 - (0.5 if i != j else -1) for j in range(4)]) for i in range(4)]))
    off = ref.code(h, w, salt=s["k"] + 40) / 10
    store(d, C, off)
    for kind in ("code", "signed", "zero", "holes"):
        cwl(ctx, d, ref.frame(kind, h, w, salt=s["k"] + 3), C, off, f"{kind} frame {h}x{w}")
    ident = whole(np.broadcast_to(np.eye(4)[:, :, None, None], (4, 4, h // 2, w // 2)))
    store(d, ident, np.zeros((h, w)))
    cwl(ctx, d, data, ident, np.zeros((h, w)), f"identity {h}x{w}")
    # each term alone, in every superpixel by its own value
    for i in range(4):
        for j in range(4):
            C = np.zeros((4, 4, h, w))
            C[i, j] = whole(1.0 + np.arange(n).reshape(h // 2, w // 2))
            store(d, C, np.zeros((h, w)))
            cwl(ctx, d, data, C, np.zeros((h, w)), f"matrix term {i}{j} alone {h}x{w}")
    for p in range(4):
        off = np.zeros((h, w))
        off[p // 2::2, p % 2::2] = 1.0 + np.arange(n).reshape(h // 2, w // 2)
        store(d, ident, off)
        cwl(ctx, d, data, ident, off, f"offset {p} alone {h}x{w}")
    ctx.trace()


def run_cwltypes(s, ctx):
    h, w = 6, 8
    d = ctx.scratch / "cwlt"
    C = whole(np.stack([np.stack([ref.code(h // 2, w // 2, salt=s["k"] + 4 * i + j) / 1000 for j in range(4)]) for i in range(4)]))
    off = ref.code(h, w, salt=s["k"] + 40) / 10
    store(d, C, off)
    data = typed(ref.code(h, w, salt=s["k"]), s["dt"])
    for name, v in layouts(data):
        cwl(ctx, d, v, C, off, f"{s['dt']} {name} data")
    # matrices stored in this type
    Ct = typed(C * 100, s["dt"])
    ot = typed(off, s["dt"])
    store(d, Ct, ot)
    for k, dt in enumerate(("f8", "i4", ">i2")):
        cwl(ctx, d, typed(ref.code(h, w, salt=s["k"] + k), dt), Ct.astype(float), ot.astype(float), f"matrices of type {s['dt']} on {dt} data", rtol=1e-6 if "f4" in s["dt"] else 1e-9)
    # relative path
    os.chdir(ctx.scratch)
    cwl(ctx, d, data.astype(float), Ct.astype(float), ot.astype(float), f"relative path, {s['dt']}", path="cwlt")
    os.chdir(d)
    cwl(ctx, d, data.astype(float), Ct.astype(float), ot.astype(float), f"path ., {s['dt']}", path=".")
    os.chdir(ctx.scratch)
    ctx.trace()
