"""Exhaustive differential enumeration: every operation on every pixel type, byte order and memory layout, against the same values as a C-ordered float64 array."""
import os

import numpy as np
import micropolarray as ml
from mc import calib, fitsio, ref
from mc.core import Violation
from mc.props import c16

BOUNDS = {
    "quick": "20 pixel types and byte orders x 8 memory layouts x 58 operations of images and functions x 4 frames (zeros, hot pixel, odd value patterns, values filling 16 bits); second operands of every type",
    "thorough": "also 6 frames and all pairs of operand types",
}
TIME_LIMIT = 600.0
TYPES = ["f8", "f4", "u1", "i1", "u2", "i2", "u4", "i4", "u8", "i8", ">f8", ">f4", ">u2", ">i2", ">u4", ">i4", ">u8", ">i8", "f2", "longdouble", "longlong", "ulonglong"]
TYPES = [t for t in TYPES if t not in ("f2", "longdouble")]
LAYOUTS = ["C", "F", "strided", "reversed", "transposed", "readonly", "offset", "sliced"]


def layout(a, name):
    if name == "C":
        return np.ascontiguousarray(a).copy()
    if name == "F":
        return np.asfortranarray(a).copy(order="F")
    if name == "strided":
        b = np.zeros((2 * a.shape[0], 3 * a.shape[1]), dtype=a.dtype)
        b[::2, ::3] = a
        return b[::2, ::3]
    if name == "reversed":
        return np.ascontiguousarray(a[::-1, ::-1])[::-1, ::-1]
    if name == "transposed":
        return np.ascontiguousarray(a.T).T
    if name == "readonly":
        r = a.copy()
        r.setflags(write=False)
        return r
    if name == "offset":  # not aligned to the item size
        buf = np.zeros(a.nbytes + 1, dtype="u1")
        v = buf[1:].view(a.dtype).reshape(a.shape) if a.dtype.itemsize == 1 else np.frombuffer(buf.data, dtype=a.dtype, count=a.size, offset=1).reshape(a.shape)
        v = np.ndarray(a.shape, dtype=a.dtype, buffer=buf, offset=1)
        v[...] = a
        return v
    assert name == "sliced"
    b = np.zeros((a.shape[0] + 3, a.shape[1] + 5), dtype=a.dtype)
    b[1:-2, 2:-3] = a
    return b[1:-2, 2:-3]


def frame(k, h=8, w=12):
    """Whole numbers 1..60, so that sums and doubles fit every type."""
    c = np.floor(ref.code(h, w, salt=17 * k)) % 60 + 1
    if k % 3 == 1:
        c[1::3, ::4] = 0
    if k % 3 == 2:
        c = c // 10 + 1
        c[4, 6] = 60
    return c


def disc(h, w, cy, cx, r, v):
    y, x = np.mgrid[0:h, 0:w]
    return np.where((y - cy) ** 2 + (x - cx) ** 2 <= r * r, 4.0, 1.0 * v)


def maps(im):
    out = [im.data, im.Stokes_vec]
    for p in im.polparam_list:
        out.append(p.data)
    out += [im.pol0.data, im.pol45.data, im.pol_45.data, im.pol90.data, im.single_pol_subimages]
    if im.demosaiced_images is not None:
        out.append(np.asarray(im.demosaiced_images))
    return out


DIC = ref.dic_of(11)


def mp(a):
    return ml.MicropolImage(a, angle_dic=DIC)


def held(a):
    """An image holding the very array."""
    im = mp(np.array(a, dtype=float))
    im.data = a
    return im


def dem(scratch):
    d = scratch / "c28cal"
    if not d.exists():
        c16.folder(d, c16.matrices(4, 6, 3), None)
    return ml.Demodulator(str(d))


def operations(scratch, second):
    """name -> function of an array; second makes the other operand from a float array."""
    flat = frame(7) + 1
    dark = np.floor(ref.code(8, 12, salt=91)) % 5
    hot = (np.arange(96).reshape(8, 12) % 7 == 0) * 1.0
    D = dem(scratch)
    ops = {
        "maps": lambda a: maps(mp(a)),
        "maps of a copy": lambda a: maps(ml.MicropolImage(mp(a))),
        "image": lambda a: [ml.Image(a).data, ml.Image(ml.Image(a)).data],
        "dark": lambda a: maps(mp(a).subtract_dark(mp(second(dark)))),
        "flat": lambda a: maps(mp(a).correct_flat(mp(second(flat)))),
        "dark and flat": lambda a: maps(ml.MicropolImage(a, angle_dic=DIC, dark=mp(second(dark)), flat=mp(second(flat)))),
        "ifov": lambda a: maps(mp(a).correct_ifov()),
        "demosaic adjacent": lambda a: maps(mp(a).demosaic()),
        "demosaic mean": lambda a: maps(mp(a).demosaic("mean")),
        "demosaic spline": lambda a: maps(mp(a).demosaic("spline")),
        "rebin": lambda a: maps(mp(a).rebin(2)),
        "plain rebin": lambda a: [ml.Image(a).rebin(2).data, ml.Image(a).rebin(3).data],
        "demosaiced rebin": lambda a: maps(mp(a).demosaic().rebin(2)),
        "congrid": lambda a: maps(mp(a).congrid(12, 8)),
        "rotate": lambda a: maps(mp(a).rotate(90)) + maps(mp(a).rotate(33)),
        "shift": lambda a: maps(mp(a).shift(1, -2)) + maps(mp(a).shift(-1, 1, missing=7)) + maps(mp(a).shift(1, 1, missing=0.5)),
        "plain shift": lambda a: [ml.Image(a).shift(1, -2).data, ml.Image(a).shift(-3, 4, missing=7).data],
        "plain shift fraction": lambda a: [ml.Image(a).shift(1, -2, missing=0.5).data],
        "mask": lambda a: maps(masked(mp(a), 4, 6, 2)) + maps(masked(mp(a).demosaic(), 3, 5, 3, fill=7)),
        "hot": lambda a: maps(ml.get_hot_pixels(mp(a), 0.3)),
        "clean": lambda a: maps(mp(a).clean_hot_pixels(mp(second(hot)))),
        "demodulate": lambda a: maps(mp(a).demodulate(D)),
        "demodulate demosaicing": lambda a: maps(mp(a).demodulate(D, demosaicing=True)),
        "add": lambda a: maps(mp(a) + mp(second(flat))) + maps(mp(a) + 2) + [(ml.Image(a) + ml.Image(second(flat))).data, (ml.Image(a) + 1).data, (ml.Image(a) + second(flat)).data],
        "sub": lambda a: maps(mp(a + 0 * a) - mp(a)) + [(ml.Image(a) - ml.Image(a)).data, (ml.Image(a) - 0).data],
        "mul": lambda a: maps(mp(a) * mp(second(np.minimum(flat, 2)))) + maps(mp(a) * 2) + maps(mp(a) * 0.5) + [(ml.Image(a) * ml.Image(second(np.minimum(flat, 2)))).data, (ml.Image(a) * 0.5).data],
        "div": lambda a: maps(mp(a) / mp(second(flat))) + maps(mp(a) / mp(second(np.floor(dark / 2)))) + maps(mp(a) / 3) + [(ml.Image(a) / ml.Image(second(flat))).data, (ml.Image(a) / 3).data, (ml.Image(a) / second(dark)).data],
        "fits": lambda a: saved(scratch, mp(a)),
        "fits of Image": lambda a: saved(scratch, ml.Image(a)),
        "raw": lambda a: rawsaved(scratch, ml.Image(a)),
        "parameters": lambda a: params(scratch, mp(a)),
        "file": lambda a: loaded(scratch, a),
        "ml.demosaic": lambda a: [ml.demosaic(a), ml.demosaic(a, "mean"), ml.demosaic(a, "spline")],
        "ml.split": lambda a: [ml.split_polarizations(a), ml.merge_polarizations(ml.split_polarizations(a))],
        "ml.merge": lambda a: [ml.merge_polarizations(np.array([a, a, a, a]))],
        "ml.congrid": lambda a: [ml.congrid(a, (5, 7)), ml.congrid(a, (16, 24))],
        "ml.roi": lambda a: [ml.roi_from_polar(a, (4, 6), [1, 4]), ml.roi_from_polar(a, (4, 6), [1, 4], theta=[20, 200], fill=3, include_superpixels=False), ml.roi_from_polar(a, return_boolean=True)],
        "ml.nrgf": lambda a: [ml.nrgf(a, 4, 6, 1)],
        "ml.linear_roi": lambda a: list(ml.linear_roi(a, (0, 0), (7, 11))) + list(ml.linear_roi_from_polar(a, (4, 5), 30)),
        "ml.cwl": lambda a: [ml.chen_wan_liang_calibration(a, cwl(scratch))],
        "ml.align": lambda a: [ml.align_keywords_and_data({"DATE-OBS": "2021-01-01", "TIME-OBS": "00:00:00"}, a[:, :8], (900, 900), 1.0)[1]],
        "ml.statistics": lambda a: [ml.mean_plus_std(a), ml.mean_minus_std(a, 2), ml.median_plus_std(a), ml.median_minus_std(a, 2), ml.sigma_DN(a)],
        "errors": lambda a: (lambda e: [e.sigma_S, e.sigma_pB, e.sigma_DoLP, e.sigma_AoLP])(ml.MicropolImageError(mp(a), second(flat), D)),
        "errors of these": lambda a: (lambda e: [e.sigma_S])(ml.MicropolImageError(mp(flat), a, D)),
        "camera": lambda a: [ml.PolarCam().occulter_roi(a)],
        # an image holding this very array
        "held rebin": lambda a: maps(held(a).rebin(2)),
        "held shift": lambda a: maps(held(a).shift(1, -1)) + [hplain(a).shift(1, 2).data],
        "held demosaic": lambda a: maps(held(a).demosaic()),
        "held demosaic mean": lambda a: maps(held(a).demosaic("mean")),
        "held congrid": lambda a: [held(a).congrid(12, 8).data],
        "held rotate": lambda a: [held(a).rotate(90).data],
        "held ifov": lambda a: maps(held(a).correct_ifov()),
        "held dark": lambda a: maps(held(a).subtract_dark(mp(second(dark)))),
        "held flat": lambda a: maps(held(a).correct_flat(mp(second(flat)))),
        "held by others": lambda a: maps(mp(flat + 60).subtract_dark(held(a))) + maps(mp(flat).correct_flat(held(a + 1))),
        "held demodulate": lambda a: maps(held(a).demodulate(D)),
        "held clean": lambda a: maps(held(a).clean_hot_pixels(mp(second(hot)))),
        "held hot": lambda a: [ml.get_hot_pixels(held(a), 0.3).data],
        "held add": lambda a: [(held(a) + held(a)).data, (held(a) * 2).data, (held(a) / held(a)).data, (held(a) - held(a)).data],
    }
    return ops


def hplain(a):
    im = ml.Image(np.zeros(a.shape))
    im.data = a
    return im


def masked(im, *a, **kw):
    im.mask_occulter(*a, **kw)
    return im


def saved(scratch, im):
    p = str(scratch / "c28.fits")
    im.save_as_fits(p)
    _, d = fitsio.read(p)
    return [d, ml.Image(p).data]


def rawsaved(scratch, im):
    p = str(scratch / "c28.raw")
    im.save_as_raw(p)
    return [np.fromfile(p, dtype="<i2")]


def params(scratch, im):
    d = calib.fresh(scratch / "c28p")
    im.save_all_pol_params_as_fits(f"{d}/p.fits")
    return [fitsio.read(f"{d}/{n}")[1] for n in sorted(os.listdir(d))]


def loaded(scratch, a):
    d = calib.fresh(scratch / "c28l")
    os.makedirs(d)
    from astropy.io import fits
    p = f"{d}/a.fits"
    fits.PrimaryHDU(data=np.array(a)).writeto(p)
    return [ml.Image(p).data, ml.Image([p, p]).data] + maps(ml.MicropolImage([p, p], angle_dic=DIC, averageimages=False))


def cwl(scratch):
    d = scratch / "c28cwl"
    if not d.exists():
        os.makedirs(d)
        for i in range(4):
            for j in range(4):
                fitsio.write(d / f"C{i}{j}.fits", ref.code(8, 12, salt=i * 4 + j) / 100)
        fitsio.write(d / "d_ij.fits", ref.code(8, 12, salt=77) / 10)
    return str(d)


def scenarios(tier, seed):
    q = tier == "quick"
    for lay in LAYOUTS:
        for t in TYPES:
            yield dict(t="one", dt=t, lay=lay, second=TYPES[(TYPES.index(t) * 7 + LAYOUTS.index(lay) * 3) % len(TYPES)], frames=3 if q else 6, k=seed)
    if not q:
        for a in TYPES:
            for b in TYPES:
                yield dict(t="one", dt=a, lay="C", second=b, frames=1, k=seed)
    for t in TYPES:
        yield dict(t="occulter", dt=t)


def flatten(res, what):
    out = []
    for r in res:
        out.append(np.asarray(r, dtype=float))
    return out


_WANT = {}


def run(s, ctx):
    if s["t"] == "occulter":
        return run_occulter(s, ctx)
    t = np.dtype(s["dt"])

    def second(a):
        return layout(np.asarray(a).astype(s["second"]), "C")

    base_ops = operations(ctx.scratch, lambda a: np.array(a, dtype=float))
    ops = operations(ctx.scratch, second)
    f4 = "f4" in (s["dt"] + s["second"])
    for k in range(s["frames"] + (t.itemsize > 1)):
        large = k == s["frames"]
        f = frame(k + s["k"])
        if large:  # as bright as 16 bits hold; sums and products of integers would not fit
            f = f * 500
        for name, op in ops.items():
            if large and name in ("add", "mul", "held add"):
                continue
            key = (k, name, large)
            with np.errstate(all="ignore"):
                if key not in _WANT:
                    _WANT[key] = flatten(base_ops[name](f.copy()), name)
                a = layout(f.astype(t), s["lay"])
                before = a.tobytes()
                what = f"{name} of {s['dt']} {s['lay']} frame {k}" + (f" with {s['second']}" if name in ("dark", "flat", "dark and flat", "clean", "add", "mul", "div") else "")
                try:
                    got = flatten(op(a), name)
                except Exception as e:  # noqa
                    raise Violation(f"{what}: {type(e).__name__}: {e}")
            want = _WANT[key]
            ctx.check(len(got) == len(want), f"{what}: {len(got)} results")
            for i, (g, w) in enumerate(zip(got, want)):
                ctx.same(g, w, f"{what}, result {i}", rtol=2e-5 if f4 else 1e-10)
            ctx.check(a.tobytes() == before, f"{what}: the array of the caller changed")
            ctx.step()
            ctx.state(k, name, s["dt"], s["lay"], s["second"])
            ctx.outcome(got[0])
    ctx.trace()


def run_occulter(s, ctx):
    for lay in LAYOUTS:
        for h, w, cy, cx, r, v in [(80, 100, 42, 47, 20, 60), (100, 80, 48, 41, 22, 100), (90, 90, 44, 47, 25, 30000 if np.dtype(s["dt"]).itemsize > 1 else 127)]:
            d = disc(h, w, cy, cx, r, v)
            a = layout(d.astype(s["dt"]), lay)
            before = a.tobytes()
            for fn in (ml.find_occulter_position, lambda x: ml.find_occulter_position(x, method="algo"), ml.find_occulter_hough):
                want = np.asarray(fn(d.copy()), dtype=float)
                got = np.asarray(fn(a), dtype=float)
                ctx.same(got, want, f"occulter of {s['dt']} {lay}", atol=1e-6 if "f4" not in s["dt"] else 1e-3)
                ctx.step()
            ctx.check(a.tobytes() == before, f"occulter of {s['dt']} {lay}: the array changed")
            ctx.state(s["dt"], lay, h)
    ctx.trace()
