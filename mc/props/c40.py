"""Stateless exploration of thread schedules of the real library: two threads, preempted before every line or byte code instruction of the library, within a bound on the preemptions."""
import copy
import itertools
import os

import numpy as np
import micropolarray as ml
from mc import calib, fitsio, ref, threads
from mc.core import Violation
from mc.props import c16

BOUNDS = {
    "quick": "all unordered pairs of 32 tasks (creation, all maps, 3 demosaicings, rebinning, shift, rotation, resizing, masking, corrections, hot pixels, arithmetic, demodulation, errors, regions, NRGF, line profiles, "
             "loading, 6 savers, raw conversion, angle helpers) on separate images (file tasks with file tasks, others with others): every schedule with one preemption before any line of the library; pairs of a task with itself also before any byte code "
             "instruction, and with two preemptions before lines; shared sources (image, dark, flat, hot-pixel map, demodulator), new folders shared by the savers, the default orientations",
    "thorough": "all ordered pairs, byte code instructions for all pairs, two preemptions for pairs of different tasks of up to 40 lines",
}
ASSUMPTIONS = ["threads are preempted only before lines or instructions of library code; numpy, numba, astropy and Python itself are trusted to be thread-safe",
               "plotting is left out (matplotlib's pyplot is not thread-safe)"]
TIME_LIMIT = 880.0
D1, D2 = ref.dic_of(9), ref.dic_of(21)
SHARED = {}
NEEDS = {}
SOLO = {}


class Work:
    """What one thread uses: its own arrays, images, folder and files, or those shared with the other."""

    def __init__(self, k, folder, first=None):
        self.k = k
        self.dir = folder
        self.n = 0 if first else k
        self.first = first
        self.arr = ref.code(8, 8, salt=17 * self.n + 3)
        self.arr2 = ref.code(8, 8, salt=17 * self.n + 5) + 1
        self.dic = D1 if self.n == 0 else D2

    def image(self, a=None):
        return ml.MicropolImage(self.arr if a is None else a, angle_dic=dict(self.dic))

    def __getattr__(self, name):
        if name not in MAKE:
            raise AttributeError(name)
        v = getattr(self.first, name) if self.first and name not in OWN else MAKE[name](self)
        self.__dict__[name] = v
        return v

    def need(self, names):
        for n in sorted(names):
            getattr(self, n)

    def used(self):
        return {n for n in MAKE if n in self.__dict__}


def demosaiced(w):
    im = w.image()
    im.demosaic("mean")
    return im


def files(w):
    return [str(SHARED["d"] / f"{w.n}a.fits"), str(SHARED["d"] / f"{w.n}b.fits")]


MAKE = {
    "im": lambda w: w.image(),
    "other": lambda w: w.image(w.arr2),
    "dark": lambda w: ml.MicropolImage(np.floor(w.arr2 / 50), angle_dic=dict(w.dic)),
    "flat": lambda w: ml.MicropolImage(w.arr2 + 500, angle_dic=dict(w.dic)),
    "int": lambda w: ml.MicropolImage(np.floor(w.arr).astype("i2"), angle_dic=dict(w.dic)),
    "dem": demosaiced,
    "demod": lambda w: copy.deepcopy(SHARED["demods"][w.n]),
    "files": files,
    "raws": lambda w: [raw(w, f"t{w.k}"), raw(w, f"t{w.k}b")],
}
OWN = ("files", "raws")
IMAGES = ("im", "other", "dark", "flat", "int", "dem")


def maps(im):
    return [np.array(p.data) for p in (im.I, im.Q, im.U, im.pB, im.AoLP, im.DoLP, im.pol0, im.pol45, im.pol_45, im.pol90)]


def full(im):
    r = [np.array(im.data), np.array(im.Stokes_vec), dict(im.angle_dic), sorted(map(str, im.header.items()))]
    if im.demosaiced_images is not None:
        r.append(np.array(im.demosaiced_images))
    return r


def new(f):
    """The image is created in the thread."""
    return lambda w: full(f(w, w.image()))


def ready(f):
    """The image exists before the threads start (one for both if shared)."""
    return lambda w: f(w, w.im)


def inplace(f):
    def g(w, im):
        f(w, im)
        return im
    return g


def saved(f):
    def g(w):
        f(w)
        res = {}
        for root, _, names in os.walk(w.dir):
            for n in sorted(names):
                if n.startswith(f"t{w.k}"):
                    p = os.path.join(root, n)
                    if n.endswith(".fits"):
                        c, d = fitsio.read(p)
                        res[os.path.relpath(p, w.dir)] = (np.array(d), [t for k, v, t in c if k != "CREATED"])
                    else:
                        res[os.path.relpath(p, w.dir)] = open(p, "rb").read()
        return sorted(res.items(), key=lambda kv: kv[0].replace(f"t{w.k}", "t"))
    return g


def raw(w, name):
    p = f"{w.dir}/{name}.raw"
    with open(p, "wb") as f:
        f.write(np.floor(w.arr).astype("<u2").tobytes())
    return p


TASKS = {
    "create": new(lambda w, im: im),
    "default": lambda w: full(ml.MicropolImage(w.arr)),
    "maps": lambda w: maps(w.image()),
    "demosaic mean": new(inplace(lambda w, im: im.demosaic("mean"))),
    "demosaic adjacent": new(inplace(lambda w, im: im.demosaic())),
    "rebin": new(lambda w, im: im.rebin(2)),
    "shift": new(lambda w, im: im.shift(1, -2)),
    "rotate": new(lambda w, im: im.rotate(90)),
    "congrid": new(lambda w, im: im.congrid(6, 4)),
    "mask": new(inplace(lambda w, im: im.mask_occulter(4, 4, 2))),
    "corrections": lambda w: full(ml.MicropolImage(w.arr, angle_dic=dict(w.dic), dark=w.dark, flat=w.flat)),
    "ifov": new(inplace(lambda w, im: im.correct_ifov())),
    "hot": lambda w: full(w.im.clean_hot_pixels(ml.get_hot_pixels(w.im, 0.2))),
    "arithmetic": lambda w: full((w.im + w.other) * 2.0) + full(w.im / w.other - 3),
    "demodulate": ready(lambda w, im: full(im.demodulate(w.demod))),
    "demodulate demosaiced": ready(lambda w, im: full(im.demodulate(w.demod, demosaicing=True))),
    "errors": ready(lambda w, im: error_maps(im, w)),
    "region": lambda w: [ml.roi_from_polar(w.arr, (3, 4), [1, 5], [30, 200]), ml.PolarCam().angle_dic],
    "nrgf": lambda w: [ml.nrgf(w.arr, 3, 4, 1, step=2)],
    "profile": lambda w: [list(ml.linear_roi_from_polar(w.arr, [4, 4], 30.0 + w.k, [1, 3]))],
    "angles": lambda w: [ml.normalize2pi([10.0 * w.k + a for a in (-400, -90, 90, 275)]), ml.normalize2piarray(w.arr / 300)],
    "copy": ready(lambda w, im: full(ml.MicropolImage(im)) + maps(im)),
    "load": lambda w: full(ml.MicropolImage(w.files[0], angle_dic=dict(w.dic))),
    "load several": lambda w: full(ml.MicropolImage(list(w.files), angle_dic=dict(w.dic))),
    "save": saved(lambda w: w.im.save_as_fits(f"{w.dir}/new/deep/t{w.k}.fits")),
    "save raw": saved(lambda w: w.int.save_as_raw(f"{w.dir}/t{w.k}s.raw")),
    "save parameters": saved(lambda w: w.im.save_all_pol_params_as_fits(f"{w.dir}/new/t{w.k}.fits")),
    "save parameter": saved(lambda w: w.im.save_param_as_fits("DoLP", f"{w.dir}/new/a/t{w.k}.fits")),
    "save orientations": saved(lambda w: w.im.save_single_pol_images(f"{w.dir}/new/t{w.k}.fits")),
    "save demosaiced": saved(lambda w: w.dem.save_demosaiced_images_as_fits(f"{w.dir}/new/t{w.k}.fits")),
    "convert": saved(lambda w: ml.convert_rawfile_to_fits(w.raws[0], 8, 8, remove_old=True)),
    "merge": saved(lambda w: ml.merge_rawfiles_to_fits(list(w.raws), f"{w.dir}/t{w.k}m.fits", 8, 8, mode="average")),
}
FILES = [t for t in TASKS if t.startswith(("save", "convert", "merge", "load"))]
WRITES = [t for t in TASKS if t.startswith(("save", "convert", "merge"))]


def scenarios(tier, seed):
    q = tier == "quick"
    names = list(TASKS)
    for two in (False, True):
        yield dict(t="default", two=two)
        yield dict(t="first", two=two)
    for a in names:
        for fine, two in ((False, False), (True, False), (False, True)):
            yield dict(t="pair", a=a, b=a, shared=False, fine=fine, two=two)
        for fine, two in ((False, False),) if q else ((False, False), (True, False), (False, True)):
            yield dict(t="pair", a=a, b=a, shared=True, fine=fine, two=two)
    for a, b in itertools.combinations(names, 2):
        if q and (a in FILES) != (b in FILES):
            continue
        yield dict(t="pair", a=a, b=b, shared=False, fine=False, two=False)
        if not q or (a in ("maps", "copy", "demodulate", "hot", "arithmetic", "corrections", "errors") and b not in WRITES):
            yield dict(t="pair", a=a, b=b, shared=True, fine=False, two=False)
        if not q:
            for sh, fine, two in itertools.product((False, True), (False, True), (False, True)):
                if fine != two:
                    yield dict(t="pair", a=a, b=b, shared=sh, fine=fine, two=two)


def prepare(ctx):
    if SHARED:
        return
    d = ctx.scratch / "src"
    d.mkdir(exist_ok=True)
    for k in range(2):
        fitsio.write(d / f"{k}a.fits", ref.code(8, 8, salt=40 + k), OBJECT=f"obj{k}")
        fitsio.write(d / f"{k}b.fits", ref.code(8, 8, salt=60 + k), OBJECT=f"obj{k}")
        c16.folder(d / f"cal{k}", c16.matrices(4, 4, k), None)
    SHARED["d"] = d
    SHARED["demods"] = [ml.Demodulator(str(d / f"cal{k}")) for k in range(2)]


def world(ctx, shared, names):
    """A fresh pair of workers with what the tasks need; everything mutable is new for each schedule."""
    out = str(ctx.scratch / "out")
    if any(n in WRITES for n in names):
        calib.fresh(out)
        os.makedirs(out)
    a = Work(0, out)
    ws = [a, Work(1, out, a if shared else None)]
    for w, n in zip(ws, names):
        if n in NEEDS:
            w.need(NEEDS[n])
    return ws


def error_maps(im, w):
    e = ml.MicropolImageError(im, np.sqrt(np.abs(im.data)) + 1, w.demod)
    return [np.array(getattr(e, k)) for k in sorted(vars(e)) if isinstance(getattr(e, k), np.ndarray)]


def canon(v):
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ("o", tuple(canon(x) for x in v.ravel()))
        return (v.shape, v.dtype.str, v.tobytes())
    if isinstance(v, dict):
        return tuple(sorted((str(k), canon(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return tuple(canon(x) for x in v)
    if isinstance(v, (bytes, str, int, float, type(None))):
        return repr(v)
    return canon(np.asarray(v))


def run(s, ctx):
    prepare(ctx)
    try:
        globals()["run_" + s["t"]](s, ctx)
    finally:
        threads.uninstall()
    ctx.trace()


def solo(ctx, name, k, shared, fine):
    """The result of the task run alone, and its number of steps."""
    key = (name, k, shared, fine)
    if key not in SOLO:
        names = [name, name]
        if name not in NEEDS:
            w = world(ctx, False, names)[0]
            TASKS[name](w)
            NEEDS[name] = w.used()
        w = world(ctx, shared, names)
        r = threads.run([lambda: TASKS[name](w[k])], [], fine)
        if r.results[0][0] != "ok":
            raise Violation(f"{name} alone: {r.results[0][1]}")
        SOLO[key] = canon(r.results[0][1]), r.steps[0]
    return SOLO[key]


def state_of(ws):
    return canon([[n, full(getattr(w, n)) if n in IMAGES else np.array(w.demod.mij) if n == "demod" else 0]
                  for w in ws for n in sorted(w.used())] + [np.array(v) for w in ws for v in (w.arr, w.arr2)])


def schedules(na, nb, two, same):
    """All schedules with one preemption (for equal tasks, up to exchanging the threads) or exactly two."""
    if two:
        for n in range(1, na):
            for m in range(1, nb):
                yield [(0, n), (1, m), (0, threads.INF)]
        return
    for n in range(0, na):
        yield [(0, n), (1, threads.INF)] if n else [(1, threads.INF)]
    for n in range(1, 1 if same else nb):
        yield [(1, n), (0, threads.INF)]


def one(ctx, names, want, sch, shared, fine):
    ws = world(ctx, shared, names)
    before = state_of(ws)
    r = threads.run([lambda w=w, t=t: TASKS[t](w) for w, t in zip(ws, names)], sch, fine)
    what = f"{names[0]} and {names[1]} in two threads{' on the same images' if shared else ''}, preempted at {r.where}"
    for k, (st, v) in enumerate(r.results):
        ctx.check(st == "ok", lambda: f"{what}: {names[k]} failed with {v}")
        ctx.check(canon(v) == want[k], f"{what}: {names[k]} has another result than when run alone")
    ctx.check(state_of(ws) == before, f"{what}: an image of the caller is changed")
    ctx.step()
    ctx.state(names, shared, r.where, tuple(r.steps))
    ctx.count("schedules")


def run_pair(s, ctx):
    a, b, shared, fine, two = s["a"], s["b"], s["shared"], s["fine"], s["two"]
    (wa, na), (wb, nb) = solo(ctx, a, 0, shared, fine), solo(ctx, b, 1, shared, fine)
    if not two or na <= 40 and nb <= 40 or a == b and na <= 70:
        for sch in schedules(na, nb, two, a == b):
            one(ctx, (a, b), (wa, wb), sch, shared, fine)
    ctx.outcome(a, b, na, nb)


def run_default(s, ctx):
    """The default orientations change while another thread creates images: each has the old or the new ones, later ones the new."""
    fine = not s["two"]
    arr = ref.code(4, 4)

    def creator():
        ims = [ml.MicropolImage(arr) for _ in range(2)]
        return [(dict(i.angle_dic), maps(i)) for i in ims]

    for old in (D1, None):
        want = {}
        for key, d in (("old", old), ("new", D2)):
            ml.set_default_angles(d)
            want[key] = canon(creator()[0])
        ml.set_default_angles(old)
        n = threads.run([creator], [], fine).steps[0]
        for k in range(0, n):
            for sch in [[(0, k), (1, m), (0, threads.INF)] for m in range(1, 8)] if s["two"] else [[(0, k), (1, threads.INF)], [(1, 1 + k % 8), (0, k + 1), (1, threads.INF)]]:
                ml.set_default_angles(old)
                g = dict(D2)
                r = threads.run([creator, lambda: ml.set_default_angles(g)], sch, fine)
                what = f"default orientations changed (they were {'set' if old else 'not set'} before) at {r.where}"
                ctx.check(all(st == "ok" for st, _ in r.results), f"{what}: {[v for st, v in r.results if st != 'ok']}")
                got = ["old" if canon(v) == want["old"] else "new" if canon(v) == want["new"] else "neither" for v in r.results[0][1]]
                ctx.check("neither" not in got and got != ["new", "old"], f"{what}: images have orientations {got}")
                ctx.check(dict(ml.MicropolImage(arr).angle_dic) == D2, f"{what}: the change is lost")
                ctx.step()
                ctx.count("schedules")
                ctx.state("default", sch)
                ctx.outcome(tuple(got))
    ml.set_default_angles(None)


def run_first(s, ctx):
    """The very first images of a process, without any default set."""
    arr = ref.code(4, 4)

    def creator():
        i = ml.MicropolImage(arr)
        return dict(i.angle_dic), maps(i)

    ml.set_default_angles(None)
    want = canon(creator())
    ml.set_default_angles(None)
    fine = not s["two"]
    n = threads.run([creator], [], fine).steps[0]
    for k in range(n):
        for m in range(1, min(n, 40)) if s["two"] else [threads.INF]:
            ml.set_default_angles(None)
            ml.MicropolImage.first_call = True
            r = threads.run([creator, creator], [(0, k), (1, m), (0, threads.INF)], fine)
            for st, v in r.results:
                ctx.check(st == "ok" and canon(v) == want, f"first images preempted at {r.where}: {v if st != 'ok' else 'other orientations or maps'}")
            ctx.step()
            ctx.state("first", k, m)
    ml.set_default_angles(None)


def warmup():
    """Compiles the kernels once, outside of the threads."""
    import tempfile
    from pathlib import Path
    from mc.core import Ctx
    with tempfile.TemporaryDirectory() as d:
        c = Ctx(Path(d))
        prepare(c)
        for name, f in TASKS.items():
            try:
                f(world(c, False, [name, name])[0])
            except Exception:
                pass
        SHARED.clear()
