"""Stateless exploration of operation sequences over a pool of live objects: an operation may only change its target."""
import os

import numpy as np
import micropolarray as ml
from mc import ref
from mc.core import Violation

BOUNDS = {
    "quick": "every sequence of up to 2 of 34 operations (on every choice of operand among the live images) from 4 initial pools, every "
             "sequence of 3 of the 8 core operations from 2 pools; after each operation every object that is not its target is compared "
             "bit by bit; every array function called on an array and its result then overwritten",
    "thorough": "as quick, with every sequence of 3 of the 13 core operations from 4 pools",
}
DERIVE = ["copy", "copy_init_dark_flat", "+img", "-img", "*img", "/img", "+num", "/num", "+arr", "rebin1", "rebin2", "shift0", "shift",
          "rot0", "rot90", "congrid_same", "congrid", "clean", "hot", "demod", "demod_dem", "save_fits", "save_param", "save_all",
          "save_pols"]
INPLACE = ["demosaic_mean", "demosaic_adj", "mask", "dark", "flat", "ifov", "edit_pixel", "edit_header", "scribble"]
OPS = DERIVE + INPLACE
CORE = [OPS.index(o) for o in ("copy", "+img", "/num", "rebin1", "shift0", "rot90", "demod", "demosaic_adj", "mask", "dark", "flat",
                               "edit_pixel", "scribble")]
QCORE = [OPS.index(o) for o in ("copy", "+num", "rot90", "demod", "demosaic_adj", "mask", "dark", "scribble")]
assert len(OPS) == 34 and len(CORE) == 13
ASSUMPTIONS = ["images are compared through their public attributes: data, header cards, Stokes_vec, demosaiced_images, angle_dic, "
               "height, width"]
H, W = 6, 8


class Demod:
    """A calibration object as the library builds it (loaded from a folder written here)."""
    cached = None

    @classmethod
    def get(cls, folder):
        if cls.cached is None or cls.cached[0] != str(folder):
            from astropy.io import fits
            os.makedirs(folder, exist_ok=True)
            for i in range(3):
                for j in range(4):
                    fits.PrimaryHDU(ref.code(H // 2, W // 2, salt=10 * i + j) / 1000 - 1).writeto(f"{folder}/M{i}{j}.fits", overwrite=True)
            flags = np.ones((H // 2, W // 2))
            flags[1, 2] = 0
            fits.PrimaryHDU(flags).writeto(f"{folder}/fit_found_flag.fits", overwrite=True)
            cls.cached = (str(folder), ml.Demodulator(str(folder)))
        return cls.cached[1]


def warmup():
    from mc.core import SCRATCH, Ctx
    im = ml.MicropolImage(ref.code(H, W))
    for o in OPS:
        try:
            operate(o, im, im, np.ones((H, W)), Demod.get(SCRATCH / "warm"), SCRATCH)
        except Exception:
            pass
    Demod.cached = None


def snap(o):
    """Everything observable of a live object."""
    if o is None:
        return None
    if isinstance(o, np.ndarray):
        return ("arr", o.shape, o.dtype.str, o.tobytes())
    if isinstance(o, ml.Demodulator):
        return ("dem", np.array(o.mij).tobytes(), None if o.fit_found_flags is None else np.array(o.fit_found_flags).tobytes())
    if isinstance(o, dict):
        return ("dict", tuple(o.items()))
    if isinstance(o, list):
        return ("list", tuple(snap(v) if isinstance(v, np.ndarray) else v for v in o))
    r = [np.asarray(o.data).tobytes(), np.asarray(o.data).shape, o.height, o.width,
         tuple((c.keyword, c.value, c.comment) for c in o.header.cards)]
    if isinstance(o, ml.MicropolImage):
        d = o.demosaiced_images
        r += [np.asarray(o.Stokes_vec, dtype=float).tobytes(), None if d is None else np.asarray(d, dtype=float).tobytes(),
              tuple(o.angle_dic.items())]
    return tuple(r)


LABELS = ("data", "shape", "height", "width", "header cards", "Stokes maps", "demosaiced images", "orientations")


def diff(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and len(a) in (5, 8):
        return ", ".join(LABELS[k] for k in range(len(a)) if a[k] != b[k])
    return "contents"


def overwrite(a, v=-12345.0):
    a = np.asarray(a)
    if a.flags.writeable and a.dtype.kind in "fiu":
        a[...] = v if a.dtype.kind == "f" else 1
    elif a.flags.writeable and a.dtype.kind == "b":
        a[...] = ~a


def scribble(o):
    """Overwrites every mutable thing reachable through the public attributes."""
    if isinstance(o, (list, tuple)):
        for v in o:
            scribble(v)
        return
    if isinstance(o, np.ndarray):
        overwrite(o)
        return
    if not isinstance(o, ml.Image):
        return
    overwrite(o.data)
    if isinstance(o, ml.MicropolImage):
        for k in range(3):
            overwrite(o.Stokes_vec[k])
        if o.demosaiced_images is not None:
            for k in range(4):
                overwrite(o.demosaiced_images[k])
        for p in o.polparam_list + [o.pol0, o.pol45, o.pol_45, o.pol90]:
            overwrite(p.data)
        overwrite(o.single_pol_subimages)
        o.angle_dic[0], o.angle_dic[90] = o.angle_dic[90], o.angle_dic[0]
    o.header["SCRIBBLE"] = 1
    o.header["OBJECT"] = "changed"


def match(other, im):
    """A live object usable as second operand (same size), else a fresh one."""
    if isinstance(other, ml.MicropolImage) and np.shape(other.data) == np.shape(im.data):
        return other, True
    return ml.MicropolImage(ref.code(*np.shape(im.data), salt=3)), False


def operate(op, im, other, arr, dem, scratch):
    """Runs op on im; returns (result or None, fresh operands that must not change)."""
    sh = np.shape(im.data)
    P, live = match(other, im)
    A = arr if arr.shape == sh else ref.code(*sh, salt=8)
    before = [(x, snap(x)) for x in (P, A, dem)]
    res = None
    if op == "copy":
        res = ml.MicropolImage(im)
    elif op == "copy_init_dark_flat":
        res = ml.MicropolImage(im, dark=P, flat=P)
    elif op == "+img":
        res = im + P
    elif op == "-img":
        res = im - P
    elif op == "*img":
        res = im * P
    elif op == "/img":
        res = im / P
    elif op == "+num":
        res = im + 0
    elif op == "/num":
        res = im / 1
    elif op == "+arr":
        res = im + A
    elif op == "rebin1":
        res = im.rebin(1)
    elif op == "rebin2":
        res = im.rebin(2) if min(sh) >= 4 else im.rebin(1)
    elif op == "shift0":
        res = im.shift(0, 0)
    elif op == "shift":
        res = im.shift(1, -1)
    elif op == "rot0":
        res = im.rotate(0)
    elif op == "rot90":
        res = im.rotate(90)
    elif op == "congrid_same":
        res = im.congrid(*sh) if min(sh) >= 4 else im.rotate(180)
    elif op == "congrid":
        res = im.congrid(8, 6) if min(sh) >= 4 else im.rotate(180)
    elif op == "clean":
        res = im.clean_hot_pixels(P)
    elif op == "hot":
        res = ml.get_hot_pixels(im, threshold=0.1)
    elif op in ("demod", "demod_dem"):
        if sh == (H, W):
            res = im.demodulate(dem, demosaicing=op == "demod_dem")
        else:
            res = ml.MicropolImage(im)
    elif op == "save_fits":
        im.save_as_fits(f"{scratch}/a.fits")
        im.save_as_fits(f"{scratch}/b.fits", fixto=[10, 100])
        im.save_as_raw(f"{scratch}/a.raw")
    elif op == "save_param":
        im.save_param_as_fits("Q", f"{scratch}/p.fits")
        im.save_param_as_fits("DoLP", f"{scratch}/p.fits", fixto=[0.1, 0.5])
    elif op == "save_all":
        im.save_all_pol_params_as_fits(f"{scratch}/all.fits")
    elif op == "save_pols":
        im.save_single_pol_images(f"{scratch}/pols.fits", fixto=[1, 50])
        if im.demosaiced_images is not None:
            im.save_demosaiced_images_as_fits(f"{scratch}/dem.fits", fixto=[1, 50])
    # ---- in place
    elif op == "demosaic_mean":
        im.demosaic("mean")
    elif op == "demosaic_adj":
        im.demosaic()
    elif op == "mask":
        im.mask_occulter(sh[0] // 2, sh[1] // 2, 2)
    elif op == "dark":
        im.subtract_dark(P if P is not im else ml.MicropolImage(A))
    elif op == "flat":
        im.correct_flat(P if P is not im else ml.MicropolImage(A))
    elif op == "ifov":
        im.correct_ifov()
    elif op == "edit_pixel":
        im.data[0, 0] = 77.0
        im.data[-1, -1] += 5
        im.Stokes_vec[0][0, 0] = 5.5
    elif op == "edit_header":
        im.header["OBJECT"] = "edited"
        im.header["NEWCARD"] = 1
        if "NOTE" in im.header:
            del im.header["NOTE"]
    elif op == "scribble":
        scribble(im)
    for x, s in before:
        if x is im and op in INPLACE:
            continue
        if snap(x) != s:
            raise Violation(f"{op} changes its operand ({diff(s, snap(x))})")
    return res


def pool_of(init, scratch):
    d = ref.code(H, W) if init != 2 else np.floor(ref.code(H, W)).astype("u2")
    arr = ref.code(H, W, salt=4)
    im = ml.MicropolImage(d, angle_dic=ref.dic_of(9))
    im.header["OBJECT"] = "root"
    im.header["NOTE"] = ("a note", "comment")
    objs = [("array the first image was made from", d), ("second array", arr)]
    if init == 0:
        pool = [im, ml.MicropolImage(arr, angle_dic=ref.dic_of(2))]
    elif init == 1:
        im.demosaic()
        pool = [im, ml.MicropolImage(im)]
    elif init == 2:
        pool = [im, ml.MicropolImage(d)]
    else:
        dic = ref.dic_of(7)
        ml.set_default_angles(dic)
        im.demosaic("mean")
        a = ml.MicropolImage(d, angle_dic=dic)
        pool = [a, im.demodulate(Demod.get(scratch / "dem"))]
        objs.append(("orientation dictionary given to the image and set as default", dic))
    return pool, objs, arr


def scenarios(tier, seed):
    q = tier == "quick"
    for f in FUNCS:
        yield dict(t="func", f=f)
    for f in PLAIN:
        yield dict(t="plain", f=f)
    yield dict(t="default")
    for init in range(4):
        for a in range(len(OPS)):
            yield dict(t="seq", init=init, prefix=[a], depth=2, core=None)
    for init in (0, 1) if q else range(4):
        core = QCORE if q else CORE
        for a in core:
            for b in core:
                yield dict(t="seq", init=init, prefix=[a, b], depth=3, core=core)


def run(s, ctx):
    if s["t"] == "func":
        return run_func(s["f"], ctx)
    if s["t"] == "plain":
        return run_plain(s["f"], ctx)
    if s["t"] == "default":
        return run_default(ctx)
    dem = Demod.get(ctx.scratch / "dem")
    demsnap = snap(dem)
    alphabet = s["core"] or range(len(OPS))

    def execute(hist):
        """hist: list of (op, target index, operand index)."""
        pool, objs, arr = pool_of(s["init"], ctx.scratch)
        names = [f"initial image {k}" for k in range(len(pool))]
        for n, (o, t, u) in enumerate(hist):
            op = OPS[o]
            what = f"pool {s['init']}: " + "; ".join(f"{OPS[a]} on {names_of(b, names)}" + (f" with {names_of(c, names)}" if c is not None else "")
                                                    for a, b, c in hist[:n + 1])
            before = [(nm, x, snap(x)) for nm, x in list(zip(names, pool)) + objs + [("calibration", dem)]]
            try:
                res = operate(op, pool[t], pool[u] if u is not None else pool[t], arr, dem, ctx.scratch)
            except Violation as v:
                raise Violation(f"{what}: {v}")
            except Exception as e:
                raise Violation(f"{what}: {op} raised {type(e).__name__}: {e}")
            ctx.step()
            if n == len(hist) - 1:
                for nm, x, b in before:
                    if x is pool[t] and op in INPLACE:
                        continue
                    ctx.check(snap(x) == b, lambda: f"{what}: {nm} is changed ({diff(b, snap(x))})")
                if res is not None:
                    ctx.check(all(res is not x for x in pool), f"{what}: the result is an existing image")
            if res is not None:
                pool.append(res)
                names.append(f"result of step {n + 1} ({op})")
        ctx.trace()
        ctx.state(s["init"], *[fast(x) for x in pool])
        ctx.outcome(fast(pool[-1]))
        return len(pool)

    def fast(x):
        return hash(snap(x))

    def names_of(k, names):
        return names[k] if k < len(names) else f"image {k}"

    def choices(npool):
        for o in alphabet:
            op = OPS[o]
            for t in range(npool):
                if op in ("+img", "-img", "*img", "/img", "clean", "dark", "flat", "copy_init_dark_flat"):
                    us = range(npool)
                else:
                    us = [None]
                for u in us:
                    yield (o, t, u)

    def subtree(hist, depth):
        n = execute(hist)
        if depth == 0:
            return
        for c in choices(n):
            subtree(hist + [c], depth - 1)

    # prefix expands to every operand choice of its operations
    def expand(hist, left):
        if not left:
            subtree(hist, s["depth"] - len(hist))
            return
        pool_n = execute(hist) if hist else 2
        for c in choices(pool_n):
            if c[0] == left[0]:
                expand(hist + [c], left[1:])

    expand([], s["prefix"])
    ctx.check(snap(dem) == demsnap, "calibration changed")


# ---------------------------------------------------------------- array functions
def _dem(d):
    return [lambda a: ml.demosaic(a, option="mean"), lambda a: ml.demosaic(a, option="adjacent"),
            lambda a: ml.demosaic(a, option="spline")]


FUNCS = {
    "split_polarizations": lambda a: ml.split_polarizations(a),
    "merge_polarizations": lambda a: ml.merge_polarizations(np.stack([a, a, a, a])),
    "demosaic mean": lambda a: ml.demosaic(a, option="mean"),
    "demosaic adjacent": lambda a: ml.demosaic(a, option="adjacent"),
    "demosaic spline": lambda a: ml.demosaic(a, option="spline"),
    "congrid same size": lambda a: ml.congrid(a, [H, W]),
    "congrid": lambda a: ml.congrid(a, [4, 10]),
    "roi_from_polar": lambda a: ml.roi_from_polar(a, [3, 4], [1, 3]),
    "roi_from_polar everything": lambda a: ml.roi_from_polar(a, [3, 4], [-5, 100]),
    "roi_from_polar pixels": lambda a: ml.roi_from_polar(a, [3, 4], [0, 100], include_superpixels=False),
    "roi_from_polar boolean": lambda a: ml.roi_from_polar(a, [3, 4], [1, 3], return_boolean=True),
    "nrgf": lambda a: ml.nrgf(a, 3, 4, 0),
    "linear_roi": lambda a: ml.linear_roi(a, (0, 0), (3, 5)),
    "linear_roi_from_polar": lambda a: ml.linear_roi_from_polar(a, (3, 4), 30),
    "normalize2piarray": lambda a: ml.normalize2piarray(a),
    "normalize2piarray in range": lambda a: ml.normalize2piarray(a / 1e6),
    "MicropolImage": lambda a: ml.MicropolImage(a),
    "Image": lambda a: ml.Image(a),
    "align": lambda a: ml.align_keywords_and_data({"DATE-OBS": "2021-01-01", "TIME-OBS": "00:00:00"}, a[:, :6], (976, 976), 4.3)[1],
    "mean_minus_std": lambda a: ml.mean_minus_std(a),
    "median_plus_std": lambda a: ml.median_plus_std(a),
    "sigma_DN": lambda a: ml.sigma_DN(a),
    "find_occulter_hough": None,
}


def run_func(name, ctx):
    f = FUNCS[name]
    if f is None:
        y, x = np.mgrid[0:60, 0:60]
        a = np.where((y - 30) ** 2 + (x - 30) ** 2 < 15 ** 2, 5.0, 200.0)
        keep = a.copy()
        for fn in (ml.find_occulter_position, ml.find_occulter_hough):
            try:
                fn(a)
            except Exception:
                pass
            ctx.exact(a, keep, "array given to the occulter search")
            ctx.step()
        return
    for kind in ("code", "signed", "holes", "const"):
        a = ref.frame(kind, H, W)
        keep = a.copy()
        r = f(a)
        ctx.exact(a, keep, f"array given to {name}")
        scribble(list(r) if isinstance(r, (tuple, list)) else r)
        ctx.exact(a, keep, f"array given to {name}, after overwriting the result")
        # the caller may reuse its array: results already returned must not change
        a = ref.frame(kind, H, W)
        r = f(a)
        s = snap_any(r)
        a[...] = -7.0
        ctx.check(snap_any(r) == s, f"result of {name} changes when the caller overwrites its array")
        a = ref.frame(kind, H, W)
        ctx.check(snap_any(f(a)) == s, f"{name}: second call with the same array gives another result")
        ctx.step(3)
        ctx.trace()
        ctx.state("func", name, kind)


def snap_any(r):
    if isinstance(r, (tuple, list)):
        return tuple(snap_any(v) for v in r)
    if isinstance(r, (np.ndarray, ml.Image)):
        return snap(r)
    return repr(r)


# ---------------------------------------------------------------- plain images
PLAIN = {
    "copy": lambda a, b, d: ml.Image(a), "+": lambda a, b, d: a + b, "-": lambda a, b, d: a - b, "*": lambda a, b, d: a * b,
    "/": lambda a, b, d: a / b, "+0": lambda a, b, d: a + 0, "*1": lambda a, b, d: a * 1, "/1": lambda a, b, d: a / 1,
    "-arr": lambda a, b, d: a - b.data, "rebin1": lambda a, b, d: a.rebin(1), "rebin2": lambda a, b, d: a.rebin(2),
    "shift0": lambda a, b, d: a.shift(0, 0), "shift": lambda a, b, d: a.shift(1, -2), "Micropol": lambda a, b, d: ml.MicropolImage(a),
    "plain of micropol": lambda a, b, d: ml.Image(ml.MicropolImage(a)), "save": lambda a, b, d: a.save_as_fits(f"{d}/i.fits", fixto=[1, 9]),
}


def run_plain(name, ctx):
    for kind in ("code", "holes"):
        for dt in ("f8", "u2", "f4"):
            d = ref.frame(kind, H, W).astype(dt)
            a, b = ml.Image(d), ml.Image(ref.code(H, W, salt=1))
            a.header["OBJECT"] = "root"
            sd, sa, sb = snap(d), snap(a), snap(b)
            r = PLAIN[name](a, b, ctx.scratch)
            for nm, x, s in (("array", d, sd), ("left operand", a, sa), ("right operand", b, sb)):
                ctx.check(snap(x) == s, lambda: f"plain image, {name}: {nm} is changed ({diff(s, snap(x))})")
            if r is not None:
                sr = snap(r)
                for x in (a, b, d):
                    scribble(x)
                ctx.check(snap(r) == sr, lambda: f"plain image, {name}: editing the source changes the result ({diff(sr, snap(r))})")
                d = ref.frame(kind, H, W).astype(dt)
                a, b = ml.Image(d), ml.Image(ref.code(H, W, salt=1))
                sd, sa, sb = snap(d), snap(a), snap(b)
                r = PLAIN[name](a, b, ctx.scratch)
                scribble(r)
                for nm, x, s in (("array", d, sd), ("left operand", a, sa), ("right operand", b, sb)):
                    ctx.check(snap(x) == s, lambda: f"plain image, {name}: editing the result changes the {nm} ({diff(s, snap(x))})")
            ctx.step(2)
            ctx.trace()
            ctx.state("plain", name, kind, dt)


def run_default(ctx):
    """Images created with the default assignment do not share it."""
    ml.set_default_angles(ref.dic_of(4))
    a, b = ml.MicropolImage(ref.code(H, W)), ml.MicropolImage(ref.code(H, W))
    c = ml.MicropolImage(a)
    a.angle_dic[0], a.angle_dic[90] = a.angle_dic[90], a.angle_dic[0]
    d = ml.MicropolImage(ref.code(H, W))
    for nm, x in (("another image", b), ("a copy", c), ("an image created afterwards", d)):
        ctx.check(dict(x.angle_dic) == ref.dic_of(4), f"editing the orientations of one image changes those of {nm}")
    ctx.step(4)
    ctx.trace()
