"""Fault enumeration on live images: every refused call, and an exception at every line of the library which an operation executes."""
import itertools
import os

import numpy as np
import micropolarray as ml
from mc import calib, fitsio, interrupt, ref
from mc.core import Violation
from mc.props import c16

LEVEL = "fault_enumeration"
RULE = ("a refused call counts as distinct by (kind of image, call, next call) and only if it raised; an interruption by (kind of image, operation, library line reached, exception) and "
        "only if the exception was delivered")
BOUNDS = {
    "quick": "9 kinds of image (float, integer, demosaiced in 3 modes, demodulated with and without demosaicing, masked, plain Image) x 79 calls (38 for plain images) with unusable arguments (sizes, types, values, names), then each of 9 ordinary operations "
             "compared with an image which never saw the refused call; 44 operations x 9 kinds of image interrupted before every library line they execute",
    "thorough": "also every pair of refused calls; interruptions with both kinds of exception everywhere and two in a row",
}
ASSUMPTIONS = ["operations are interrupted between lines of library code, not within compiled kernels", "an image whose own in-place operation is interrupted may be left with maps that do not belong to its data"]
DIC = ref.dic_of(13)
KINDS = ["float", "int", "mean", "adjacent", "spline", "demodulated", "demodulated demosaiced", "masked", "Image"]
H, W = 8, 12


def build(kind, k=0):
    d = ref.code(H, W, salt=3 + k)
    if kind == "Image":
        return ml.Image(d)
    if kind == "int":
        d = np.floor(d).astype("i2")
    im = ml.MicropolImage(d, angle_dic=dict(DIC))
    im.header["OBJECT"] = "sun"
    if kind in ("mean", "adjacent", "spline"):
        im.demosaic(kind)
    elif kind == "demodulated":
        im = im.demodulate(W_["dem"])
    elif kind == "demodulated demosaiced":
        im = im.demodulate(W_["dem"], demosaicing=True)
    elif kind == "masked":
        im.demosaic("mean")
        im.mask_occulter(4, 6, 2)
    return im


W_ = {}


def world(scratch):
    if W_:
        return
    d = scratch / "c41"
    calib.fresh(str(d))
    os.makedirs(d / "out")
    c16.folder(d / "cal", c16.matrices(H // 2, W // 2, 2), (np.arange(H * W // 4) % 3 != 0).astype(float).reshape(H // 2, W // 2))
    c16.folder(d / "small", c16.matrices(H // 2 - 1, W // 2, 2), None)
    W_["d"] = d
    W_["dem"] = ml.Demodulator(str(d / "cal"))
    W_["small"] = ml.Demodulator(str(d / "small"))
    fitsio.write(d / "a.fits", ref.code(H, W, salt=31), OBJECT="a")
    fitsio.write(d / "b.fits", ref.code(H, W, salt=37), OBJECT="b")
    fitsio.write(d / "wide.fits", ref.code(H, W + 4, salt=37), OBJECT="wide")
    (d / "junk.fits").write_bytes(b"junk" * 1000)
    (d / "taken").write_bytes(b"x")
    fitsio.write(d / "C.fits", ref.code(H, W))


class Things:
    """Fresh operands; all of them are compared before and after."""

    def __init__(self, kind):
        self.kind = kind
        self.im = build(kind)
        self.source = self.im           # an image from which a copy was made
        self.copy = (ml.Image if kind == "Image" else ml.MicropolImage)(self.im)
        self.arr = ref.code(H, W, salt=50)
        if kind == "Image":
            self.other = ml.Image(self.arr)
            self.dark = self.flat = self.flags = self.other
        else:
            self.other = ml.MicropolImage(self.arr, angle_dic=ref.dic_of(4))
            self.dark = ml.MicropolImage(np.floor(self.arr / 50), angle_dic=dict(DIC))
            self.flat = ml.MicropolImage(self.arr + 500, angle_dic=dict(DIC))
            self.flags = ml.MicropolImage((np.arange(H * W).reshape(H, W) % 5 == 0) * 1.0, angle_dic=dict(DIC))
        self.small = type(self.other)(ref.code(H - 2, W, salt=51))
        self.err = np.sqrt(self.arr)

    def objects(self, target=True):
        n = ["copy", "other", "dark", "flat", "flags", "small"] + (["im"] if target else [])
        return {k: getattr(self, k) for k in n}

    def snap(self, target=True):
        r = {k: snap(o) for k, o in self.objects(target).items()}
        r["arr"], r["err"] = self.arr.tobytes(), self.err.tobytes()
        r["calibrations"] = [W_[k].mij.tobytes() for k in ("dem", "small")] + [W_["dem"].fit_found_flags.tobytes()]
        r["default"] = dict(ml.MicropolImage(np.zeros((2, 2))).angle_dic)
        return r


def arr(a):
    a = np.asarray(a)
    return (a.shape, a.dtype.str, a.tobytes())


def snap(o):
    r = [arr(o.data), o.height, o.width, [str(c) for c in o.header.cards]]
    if isinstance(o, ml.MicropolImage):
        r += [arr(o.Stokes_vec), sorted(o.angle_dic.items()), None if o.demosaiced_images is None else arr(o.demosaiced_images)]
        r += [arr(p.data) for p in o.polparam_list]
    return r


def differ(a, b):
    return [k for k in a if a[k] != b[k]]


def setdata(im, v):
    im.data = v


def refused(kind):
    """Calls which cannot be carried out: name -> function of Things."""
    d = str(W_["d"])
    ops = {}
    for sign, f in (("+", lambda a, b: a + b), ("-", lambda a, b: a - b), ("*", lambda a, b: a * b), ("/", lambda a, b: a / b)):
        ops[f"{sign} smaller image"] = lambda t, f=f: f(t.im, t.small)
        ops[f"{sign} smaller array"] = lambda t, f=f: f(t.im, t.arr[:-2])
        ops[f"{sign} text"] = lambda t, f=f: f(t.im, "x")
        ops[f"{sign} None"] = lambda t, f=f: f(t.im, None)
    for n in (0, -1, "2", None):
        ops[f"rebin {n!r}"] = lambda t, n=n: t.im.rebin(n)
    ops["shift text"] = lambda t: t.im.shift("1", 2)
    ops["shift None"] = lambda t: t.im.shift(1, None)
    for n in ("x", "x.fit", "a/b.txt", d + "/taken/x.fits", d, 7, None):
        ops[f"save as {os.path.relpath(n, d) if isinstance(n, str) and n.startswith('/') else n!r}"] = lambda t, n=n: t.im.save_as_fits(n)
    ops["save with a bad range"] = lambda t: t.im.save_as_fits(d + "/o.fits", fixto=[1])
    ops["save with text as range"] = lambda t: t.im.save_as_fits(d + "/o.fits", fixto=["a", "b"])
    ops["save raw as x"] = lambda t: t.im.save_as_raw("x")
    ops["save raw below a file"] = lambda t: t.im.save_as_raw(d + "/taken/x.raw")
    ops["3-d data"] = lambda t: setdata(t.im, np.zeros((2, 4, 4)))
    ops["1-d data"] = lambda t: setdata(t.im, np.zeros(16))
    ops["no data"] = lambda t: setdata(t.im, None)
    ops["list as data"] = lambda t: setdata(t.im, [[1, 2], [3, 4]])
    ops["histogram of 0 bins"] = lambda t: t.im.show_histogram(bins=0)
    if kind == "Image":
        return ops
    ops.update({
        "demosaic bad": lambda t: t.im.demosaic("bad"),
        "demosaic None": lambda t: t.im.demosaic(None),
        "demosaic 3": lambda t: t.im.demosaic(3),
        "dark of another size": lambda t: t.im.subtract_dark(t.small),
        "dark None": lambda t: t.im.subtract_dark(None),
        "dark array": lambda t: t.im.subtract_dark("dark"),
        "flat of another size": lambda t: t.im.correct_flat(t.small),
        "flat None": lambda t: t.im.correct_flat(None),
        "flat text": lambda t: t.im.correct_flat("flat"),
        "congrid text": lambda t: t.im.congrid("a", 4),
        "congrid 0": lambda t: t.im.congrid(0, 0),
        "congrid negative": lambda t: t.im.congrid(-4, 4),
        "rotate text": lambda t: t.im.rotate("a"),
        "rotate None": lambda t: t.im.rotate(None),
        "mask at text": lambda t: t.im.mask_occulter("a", 3, 2),
        "mask with radius None": lambda t: t.im.mask_occulter(4, 6, None),
        "mask at None": lambda t: t.im.mask_occulter(None, 6, 2),
        "mask with text": lambda t: t.im.mask_occulter(4, 6, 2, fill="x"),
        "mask with radius text": lambda t: t.im.mask_occulter(4, 6, 2, overoccult="x"),
        "clean with another size": lambda t: t.im.clean_hot_pixels(t.small),
        "clean with None": lambda t: t.im.clean_hot_pixels(None),
        "hot with text": lambda t: ml.get_hot_pixels(t.im, "x"),
        "demodulate another size": lambda t: t.im.demodulate(W_["small"]),
        "demodulate another size demosaicing": lambda t: t.im.demodulate(W_["small"], demosaicing=True),
        "demodulate None": lambda t: t.im.demodulate(None),
        "demodulate None demosaicing": lambda t: t.im.demodulate(None, demosaicing=True),
        "errors of another size": lambda t: ml.MicropolImageError(t.im, t.err[:-2], W_["dem"]),
        "errors with a wrong calibration": lambda t: ml.MicropolImageError(t.im, t.err, W_["small"]),
        "parameter nonsense": lambda t: t.im.save_param_as_fits("nonsense", d + "/o.fits"),
        "parameter in x": lambda t: t.im.save_param_as_fits("Q", "x"),
        "parameters in x": lambda t: t.im.save_all_pol_params_as_fits("x"),
        "orientations in x": lambda t: t.im.save_single_pol_images("x"),
        "demosaiced in x": lambda t: t.im.save_demosaiced_images_as_fits("x"),
        "parameters below a file": lambda t: t.im.save_all_pol_params_as_fits(d + "/taken/x.fits"),
        "copy with a wrong dark": lambda t: ml.MicropolImage(t.im, dark=t.small),
        "copy with a wrong flat": lambda t: ml.MicropolImage(t.im, dark=t.dark, flat=t.small),
        "image of an odd frame": lambda t: ml.MicropolImage(t.arr[:-1]),
        "image of files of two sizes": lambda t: ml.MicropolImage([d + "/a.fits", d + "/wide.fits"]),
        "image of no files": lambda t: ml.MicropolImage([]),
        "image of junk": lambda t: ml.MicropolImage(d + "/junk.fits"),
        "image with a wrong assignment": lambda t: ml.MicropolImage(t.arr, angle_dic={0: 0, 45: 1}),
        "default of text": lambda t: ml.set_default_angles(3),
    })
    return ops


def done(fn):
    def g(t):
        fn(t)
        return t.im
    return g


NEXT = {  # ordinary operations after the refused one
    "maps": lambda t: t.im,
    "copy": lambda t: (ml.MicropolImage if t.kind != "Image" else ml.Image)(t.im),
    "rebin": lambda t: t.im.rebin(2),
    "shift": lambda t: t.im.shift(1, -1),
    "add": lambda t: t.im + t.other,
    "halve": lambda t: t.im / 2,
    "dark": done(lambda t: t.im.subtract_dark(t.dark)),
    "demosaic": done(lambda t: t.im.demosaic()),
    "demodulate": lambda t: t.im.demodulate(W_["dem"], demosaicing=True),
}
PLAIN_NEXT = ("maps", "copy", "rebin", "shift", "add", "halve")


def out(n):
    return str(W_["d"] / "out" / n)


OPS = {  # operations which make something new; name -> function of Things
    "copy": lambda t: ml.MicropolImage(t.im),
    "copy corrected": lambda t: ml.MicropolImage(t.im, dark=t.dark, flat=t.flat),
    "create": lambda t: ml.MicropolImage(t.arr, angle_dic=dict(DIC)),
    "create default": lambda t: ml.MicropolImage(t.arr),
    "create corrected": lambda t: ml.MicropolImage(t.arr, angle_dic=dict(DIC), dark=t.dark, flat=t.flat),
    "load": lambda t: ml.MicropolImage(str(W_["d"] / "a.fits")),
    "load several": lambda t: ml.MicropolImage([str(W_["d"] / "a.fits"), str(W_["d"] / "b.fits")]),
    "+ image": lambda t: t.im + t.other,
    "- image": lambda t: t.im - t.other,
    "* image": lambda t: t.im * t.other,
    "/ image": lambda t: t.im / t.other,
    "+ number": lambda t: t.im + 2.5,
    "- array": lambda t: t.im - t.arr,
    "* number": lambda t: t.im * 2.0,
    "/ number": lambda t: t.im / 3.0,
    "rebin": lambda t: t.im.rebin(2),
    "rebin 1": lambda t: t.im.rebin(1),
    "shift": lambda t: t.im.shift(1, -2),
    "shift 0": lambda t: t.im.shift(0, 0),
    "rotate": lambda t: t.im.rotate(90),
    "rotate 0": lambda t: t.im.rotate(0),
    "congrid": lambda t: t.im.congrid(6, 10),
    "clean": lambda t: t.im.clean_hot_pixels(t.flags),
    "hot": lambda t: ml.get_hot_pixels(t.im, 0.2),
    "demodulate": lambda t: t.im.demodulate(W_["dem"]),
    "demodulate demosaicing": lambda t: t.im.demodulate(W_["dem"], demosaicing=True),
    "errors": lambda t: ml.MicropolImageError(t.im, t.err, W_["dem"]),
    "save": lambda t: t.im.save_as_fits(out("a.fits")),
    "save clamped": lambda t: t.im.save_as_fits(out("a.fits"), fixto=[10, 500]),
    "save raw": lambda t: t.im.save_as_raw(str(W_["d"] / "a.raw")),
    "save parameter": lambda t: t.im.save_param_as_fits("DoLP", out("p.fits"), fixto=[0, 1]),
    "save parameters": lambda t: t.im.save_all_pol_params_as_fits(out("q.fits")),
    "save orientations": lambda t: t.im.save_single_pol_images(out("r.fits")),
    "save demosaiced": lambda t: t.im.save_demosaiced_images_as_fits(out("s.fits")) if t.im.demosaiced_images is not None else None,
    "show": lambda t: t.im.show(),
    "region": lambda t: ml.roi_from_polar(t.im.data, (4, 6), [1, 3]),
    "calibration": lambda t: ml.Demodulator(str(W_["d"] / "cal")),
}
PLAIN_OPS = ["load", "+ image", "- image", "* image", "/ image", "+ number", "- array", "* number", "/ number", "rebin", "rebin 1", "shift", "shift 0", "save", "save clamped", "save raw", "show", "region"]
INPLACE = {
    "demosaic": lambda t: t.im.demosaic(),
    "demosaic mean": lambda t: t.im.demosaic("mean"),
    "dark": lambda t: t.im.subtract_dark(t.dark),
    "flat": lambda t: t.im.correct_flat(t.flat),
    "ifov": lambda t: t.im.correct_ifov(),
    "mask": lambda t: t.im.mask_occulter(4, 6, 3),
    "set data": lambda t: setdata(t.im, t.arr * 2),
}


def scenarios(tier, seed):
    q = tier == "quick"
    for kind in KINDS:
        for n in NEXT if kind != "Image" else PLAIN_NEXT:
            yield dict(t="refused", kind=kind, next=n, pairs=False)
        if not q:
            yield dict(t="refused", kind=kind, next="maps", pairs=True)
    for kind in KINDS:
        for n in list(OPS) if kind != "Image" else PLAIN_OPS:
            if n == "errors" and kind in ("mean", "adjacent", "spline", "demodulated demosaiced", "masked"):
                continue        # maps of the size of the frame do not fit a calibration
            yield dict(t="interrupted", kind=kind, op=n, inplace=False, both=not q)
        if kind != "Image":
            for n in INPLACE:
                yield dict(t="interrupted", kind=kind, op=n, inplace=True, both=not q)


def run(s, ctx):
    world(ctx.scratch)
    import matplotlib.pyplot as plt
    try:
        globals()["run_" + s["t"]](s, ctx)
    finally:
        interrupt.uninstall()
        plt.close("all")
    ctx.trace()


def result(r):
    if isinstance(r, ml.Image):
        return snap(r)
    if isinstance(r, np.ndarray):
        return arr(r)
    if isinstance(r, ml.MicropolImageError):
        return [arr(getattr(r, k)) for k in sorted(vars(r)) if isinstance(getattr(r, k), np.ndarray)]
    if isinstance(r, ml.Demodulator):
        return [arr(r.mij), arr(r.fit_found_flags)]
    return type(r).__name__


def refuse(ctx, fn, t, name, kind):
    import matplotlib.pyplot as plt
    try:
        fn(t)
    except Exception:  # noqa
        return True
    finally:
        plt.close("all")
    return False


def run_refused(s, ctx):
    kind = s["kind"]
    ops = refused(kind)
    nxt = NEXT[s["next"]]
    ref_t = Things(kind)
    want = result(nxt(ref_t))
    ml.set_default_angles(None)
    for names in itertools.product(ops, ops) if s["pairs"] else ((n,) for n in ops):
        t = Things(kind)
        before = t.snap()
        hit = False
        for name in names:
            hit = refuse(ctx, ops[name], t, name, kind) or hit
        if not hit:
            ml.set_default_angles(None)
            ctx.count("calls which were not refused")
            continue
        what = f"{kind} image, {' and '.join(names)} refused"
        bad = differ(before, t.snap())
        ctx.check(not bad, f"{what}: changed {bad}")
        try:
            got = result(nxt(t))
        except Exception as e:  # noqa
            got = repr(e)
        ctx.check(got == want, f"{what}: {s['next']} afterwards has another result")
        ctx.step()
        ctx.count("refused calls")
        ctx.state(kind, names, s["next"])
        ctx.outcome(names)


def run_interrupted(s, ctx):
    kind, inplace = s["kind"], s["inplace"]
    op = (INPLACE if inplace else OPS)[s["op"]]
    t = Things(kind)
    end, v, lines, _ = interrupt.run(lambda: op(t))
    ctx.check(end == "returned", f"{s['op']} of a {kind} image: {v!r}")
    want = result(v)
    new = arr(t.im.data)
    import matplotlib.pyplot as plt
    for n in range(1, lines + 1):
        for exc in (interrupt.Interrupt, interrupt.OutOfMemory) if s["both"] else ((interrupt.Interrupt, interrupt.OutOfMemory)[n % 2],):
            t = Things(kind)
            before = t.snap(not inplace)
            old = arr(t.im.data)
            end, v, _, where = interrupt.run(lambda: op(t), n, exc)
            what = f"{s['op']} of a {kind} image interrupted with {exc.__name__} at {where}"
            plt.close("all")
            if where is None:
                ctx.count("not reached")
                continue
            bad = differ(before, t.snap(not inplace))
            ctx.check(not bad, f"{what}: changed {bad}")
            if inplace:
                ctx.check(arr(t.im.data) in (old, new), f"{what}: the pixels are neither those before nor those after the operation")
            else:
                e2, v2, _, _ = interrupt.run(lambda: op(t))
                ctx.check(e2 == "returned" and result(v2) == want, lambda: f"{what}: carried out again it gives {'another result' if e2 == 'returned' else repr(v2)}")
                plt.close("all")
            ctx.step()
            ctx.count(end)
            ctx.state(kind, s["op"], where, n, exc.__name__)
            ctx.outcome(s["op"], where)


def warmup():
    import tempfile
    from pathlib import Path
    with tempfile.TemporaryDirectory() as d:
        world(Path(d))
        for kind in ("float", "spline"):
            for f in list(OPS.values()) + list(INPLACE.values()) + list(NEXT.values()):
                try:
                    f(Things(kind))
                except Exception:
                    pass
        import matplotlib.pyplot as plt
        plt.close("all")
        W_.clear()
