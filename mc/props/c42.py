"""What a call leaves behind in the process, and how it depends on the process: every call x every ambient setting, refused calls and calls ended at every line."""
import gc
import itertools
import locale
import logging
import multiprocessing
import os
import random
import re
import resource
import signal
import sys
import threading
import time
import warnings
from pathlib import Path

import cv2
import numba
import numpy as np
from scipy.special import ndtri
import micropolarray as ml
from mc import calib, fitsio, interrupt, ref
from mc.props import c36, c41

LEVEL = "fault_enumeration"
RULE = ("distinct by (call, setting of the process, ending of the call); an ending by an exception counts only if the exception was delivered; a setting counts only "
        "because it differs from the one the reference result was obtained with")
TIME_LIMIT = 600.0
SIDE = 16


# ---------------------------------------------------------------- ambient settings
def _np_err(**kw):
    def f(d):
        np.seterr(**kw)
    return f


def _cwd(d):
    os.makedirs(d / "elsewhere", exist_ok=True)
    os.chdir(d / "elsewhere")


def _tz(d):
    os.environ["TZ"] = "Asia/Kathmandu"
    time.tzset()


def _rc(d):
    import matplotlib
    matplotlib.rcParams.update({"image.origin": "upper", "figure.figsize": [2.0, 3.0], "axes.grid": True, "image.cmap": "hot", "savefig.dpi": 33})


def _warn(action):
    def f(d):
        warnings.simplefilter(action)
    return f


def _random(d):
    np.random.seed(999)
    random.seed(999)


def _print(d):
    np.set_printoptions(precision=1, threshold=3, suppress=True)


AMBIENT = {
    "another folder": _cwd,
    "umask 077": lambda d: os.umask(0o077),
    "umask 002": lambda d: os.umask(0o002),
    "numpy errors ignored": _np_err(all="ignore"),
    "numpy errors printed": _np_err(all="print"),
    "numpy errors raised": _np_err(divide="raise", invalid="raise", over="raise"),
    "numpy print options": _print,
    "random state": _random,
    "warnings always": _warn("always"),
    "warnings ignored": _warn("ignore"),
    "time zone": _tz,
    "matplotlib settings": _rc,
    "log level": lambda d: logging.getLogger().setLevel(logging.DEBUG),
    "logging off": lambda d: logging.disable(logging.CRITICAL),
    "environment": lambda d: os.environ.update(LANG="de_DE.UTF-8", LC_ALL="C", COLUMNS="20", MICROPOL="1"),
    "signal handlers": lambda d: (signal.signal(signal.SIGINT, signal.SIG_IGN), signal.signal(signal.SIGUSR1, lambda *a: None)),
    "no output": lambda d: setattr(sys, "stdout", None),
    "small recursion limit": lambda d: sys.setrecursionlimit(700),
    "no garbage collection": lambda d: gc.disable(),
    "default orientations": lambda d: ml.set_default_angles(ref.dic_of(20)),
}


def unusual():
    """A starting point which is nobody's default, so that resetting something shows as well."""
    import matplotlib
    np.seterr(divide="warn", over="warn", under="ignore", invalid="warn")
    warnings.resetwarnings()
    warnings.filterwarnings("ignore", message=".*")
    np.random.seed(20261)
    random.seed(20261)
    np.set_printoptions(linewidth=77)
    dict.update(matplotlib.rcParams, {"savefig.pad_inches": 0.11, "figure.max_open_warning": 0})
    gc.set_threshold(701, 11, 11)


class Saved:
    """The process, to be put back by the harness after each case."""

    def __init__(self):
        import matplotlib
        self.v = (os.getcwd(), os.umask(0), dict(os.environ), np.geterr(), np.get_printoptions(), np.random.get_state(), random.getstate(), warnings.filters[:], warnings.showwarning,
                  dict.copy(matplotlib.rcParams), logging.getLogger().level, logging.root.manager.disable, {s: signal.getsignal(s) for s in (signal.SIGINT, signal.SIGUSR1)},
                  sys.stdout, sys.getrecursionlimit(), gc.isenabled())
        os.umask(self.v[1])

    def restore(self):
        import matplotlib
        (cwd, mask, env, err, opts, rs, rr, filt, show, rc, level, dis, sig, out, rec, gcon) = self.v
        os.chdir(cwd)
        os.umask(mask)
        os.environ.clear()
        os.environ.update(env)
        time.tzset()
        np.seterr(**err)
        np.set_printoptions(**{k: v for k, v in opts.items() if k != "override_repr"})
        np.random.set_state(rs)
        random.setstate(rr)
        warnings.filters[:] = filt
        warnings.showwarning = show
        dict.update(matplotlib.rcParams, rc)
        logging.getLogger().setLevel(level)
        logging.disable(dis)
        for s, h in sig.items():
            signal.signal(s, h)
        sys.stdout = out
        sys.setrecursionlimit(rec)
        (gc.enable if gcon else gc.disable)()
        ml.set_default_angles(None)


def listing(d, skip=()):
    return sorted(str(p.relative_to(d)) for p in Path(d).rglob("*") if str(p.relative_to(d)).split("/")[0] not in skip)


def files_open():
    r = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            r.append(os.readlink("/proc/self/fd/" + fd))
        except OSError:
            pass
    return sorted(x for x in r if not x.startswith("/proc/"))


def mapped(d):
    with open("/proc/self/maps") as f:
        return sorted({l.split(None, 5)[5].strip() for l in f if str(d) in l})


def process(w):
    """Everything which a call must leave alone."""
    import matplotlib
    import matplotlib.pyplot as plt
    mask = os.umask(0)
    os.umask(mask)
    st = np.random.get_state()
    kids = [p.pid for p in multiprocessing.active_children()]
    root = logging.getLogger()
    return {
        "working directory": os.getcwd(), "umask": mask, "environment": dict(os.environ), "numpy error handling": np.geterr(), "numpy error callback": np.geterrcall(),
        "numpy print options": str({k: v for k, v in np.get_printoptions().items()}), "numpy random state": (st[0], st[1].tobytes(), st[2:]), "random state": random.getstate(),
        "warning filters": [(a, str(b), c, str(d_), e) for a, b, c, d_, e in warnings.filters], "showwarning": warnings.showwarning,
        "matplotlib settings": dict.copy(matplotlib.rcParams), "logging": (root.level, logging.root.manager.disable, list(map(str, root.handlers))),
        "loggers of the library": {n: (l.level, l.disabled, l.propagate, len(l.handlers)) for n, l in sorted(logging.root.manager.loggerDict.items()) if n.startswith("micropolarray") and isinstance(l, logging.Logger)},
        "signal handlers": {s: signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGCHLD, signal.SIGALRM, signal.SIGUSR1)},
        "alarm": signal.getitimer(signal.ITIMER_REAL)[0] > 0, "output": (sys.stdout, sys.stderr, sys.excepthook), "recursion limit": sys.getrecursionlimit(), "garbage collection": (gc.isenabled(), gc.get_threshold()),
        "threads": sorted(t.name for t in threading.enumerate() if type(t).__name__ != "TMonitor"), "children": kids, "open files": files_open(), "mapped files": mapped(w["d"].parent),
        "open figures": plt.get_fignums(), "module search path": list(sys.path), "stray files": listing(w["d"], ("out", "in")) + [os.path.join("TMP", x) for x in os.listdir(os.environ["TMPDIR"])],
        "input files": {p: (w["d"] / "in" / p).read_bytes() if (w["d"] / "in" / p).is_file() else None for p in listing(w["d"] / "in")},
        "default orientations": dict(ml.MicropolImage(np.zeros((2, 2))).angle_dic),
        "locale": locale.setlocale(locale.LC_ALL), "start method": multiprocessing.get_start_method(), "switch interval": sys.getswitchinterval(), "processors": sorted(os.sched_getaffinity(0)),
        "priority": os.getpriority(os.PRIO_PROCESS, 0), "limits": [resource.getrlimit(k) for k in (resource.RLIMIT_NOFILE, resource.RLIMIT_STACK, resource.RLIMIT_AS, resource.RLIMIT_FSIZE)],
        "kernel threads": (numba.get_num_threads(), cv2.getNumThreads()),
    }


# ---------------------------------------------------------------- calls
W_ = {}


def world(scratch):
    if W_:
        return W_
    d = Path(scratch) / "c42"
    calib.fresh(str(d))
    (d / "in").mkdir(parents=True)
    (d / "out").mkdir()
    c41.W_.clear()
    c41.world(Path(scratch))
    i = d / "in"
    a = np.floor(ref.code(8, 12, salt=5, fine=0)).astype("<u2")
    (i / "a.raw").write_bytes(a.tobytes())
    (i / "b.raw").write_bytes((a + 3).tobytes())
    (i / "short.raw").write_bytes(a.tobytes()[:-2])
    (i / "junk.fits").write_bytes(b"x" * 2880)
    phases = [0, 45, -45, 90]
    ang = [0, 45, 90, -45, 20]
    S = 1000.0
    yy, xx = np.mgrid[0:4, 0:4]
    ph = np.array([[phases[2 * (y % 2) + x % 2] for x in range(4)] for y in range(4)])
    for k, p in enumerate(ang):
        f = 0.5 * 0.6 * S * (1 + 0.7 * np.cos(2 * np.deg2rad(ph - p))) + yy + xx
        fitsio.write(i / f"m{k}.fits", np.round(f), EXPTIME=1.0)
    fitsio.write(i / "dark.fits", np.full((4, 4), 2.0))
    fitsio.write(i / "flat.fits", 100.0 + yy)
    cd = c41.W_["d"] / "cal"
    for k, n in enumerate(("transmittancies", "efficiences", "phases")):
        fitsio.write(cd / f"{n}.fits", np.tile([[0.0, 45.0], [-45.0, 90.0]], (c41.H // 2, c41.W // 2)) if k == 2 else ref.code(c41.H, c41.W, salt=k) / 3000)
    (cd / "covariance_tensor").mkdir()
    for j in range(9):
        fitsio.write(cd / "covariance_tensor" / f"C{j // 3}{j % 3}.fits", ref.code(c41.H, c41.W, salt=j))
    W_.update(d=d, ang=ang, files=[str(i / f"m{k}.fits") for k in range(5)], phases=phases)
    y, x = np.mgrid[0:64, 0:64]
    W_["disc"] = np.where((y - 33) ** 2 + (x - 30) ** 2 <= 18 ** 2, 20.0, 900.0)
    W_["peaks"] = c36.frames_of((100 + ndtri((np.arange(4096) + 0.5) / 4096)).reshape(64, 64))
    return W_


def cal(out, **kw):
    calib.calibrate(W_["ang"], W_["files"], W_["phases"], out, normalizing_S=1000.0, **kw)


def cal_maps():
    d = ml.Demodulator(str(c41.W_["d"] / "cal"))
    return [d.tk, d.eff, d.phi, d.Cij, list(d.angle_dic.items())]


def inp(n):
    return str(W_["d"] / "in" / n)


def o(n):
    return str(W_["d"] / "out" / n)


def hdr():
    return {"DATE-OBS": "2022-01-01", "TIME-OBS": "10:00:00"}


IMAGE_OPS = {k: v for k, v in c41.OPS.items() if k not in ("load", "load several", "save", "save clamped", "save raw", "save parameter", "save parameters", "save orientations", "save demosaiced")}
IMAGE_OPS.update(c41.INPLACE)
IMAGE_OPS.update({
    "load": lambda t: ml.MicropolImage(str(c41.W_["d"] / "a.fits"), angle_dic=dict(c41.DIC)),
    "load several": lambda t: ml.MicropolImage([str(c41.W_["d"] / "a.fits"), str(c41.W_["d"] / "b.fits")], angle_dic=dict(c41.DIC)),
    "load several not averaged": lambda t: ml.MicropolImage([str(c41.W_["d"] / "a.fits"), str(c41.W_["d"] / "b.fits")], angle_dic=dict(c41.DIC), averageimages=False),
    "save": lambda t: t.im.save_as_fits(o("sub/a.fits")),
    "save clamped": lambda t: t.im.save_as_fits(o("a.fits"), fixto=[10, 500]),
    "save raw": lambda t: t.im.save_as_raw(o("a.raw")),
    "save parameter": lambda t: t.im.save_param_as_fits("DoLP", o("p.fits"), fixto=[0, 1]),
    "save parameters": lambda t: t.im.save_all_pol_params_as_fits(o("deep/er/q.fits")),
    "save orientations": lambda t: t.im.save_single_pol_images(o("r.fits")),
    "save demosaiced": lambda t: t.im.save_demosaiced_images_as_fits(o("s.fits")) if t.im.demosaiced_images is not None else None,
    "histogram": lambda t: t.im.show_histogram(),
    "show orientations": lambda t: t.im.show_single_pol_images(),
    "show with maps": lambda t: t.im.show_with_pol_params(),
    "show maps": lambda t: t.im.show_pol_param("DoLP"),
    "parameters": lambda t: [np.array(getattr(t.im, k).data) for k in ("I", "Q", "U", "pB", "AoLP", "DoLP")],
    "orientations": lambda t: [np.array(x) for x in (t.im.single_pol_subimages[0], t.im.single_pol_subimages[3])],
    "default orientations": lambda t: (ml.set_default_angles(dict(c41.DIC)), ml.set_default_angles(None))[:0],
})
SHOWS = ("show", "histogram", "show orientations", "show with maps", "show maps")
USES_DEFAULT = ("calibration", "create default", "default orientations")
FREE = {
    "convert": lambda: ml.convert_rawfile_to_fits(_raw(), 8, 12),
    "convert and remove": lambda: ml.convert_rawfile_to_fits(_raw(), 8, 12, remove_old=True),
    "merge": lambda: ml.merge_rawfiles_to_fits([inp("a.raw"), inp("b.raw")], o("m.fits"), 8, 12),
    "average": lambda: ml.average_rawfiles_to_fits([inp("a.raw"), inp("b.raw")], o("m.fits"), 8, 12),
    "calibrate": lambda: cal(o("cal")),
    "calibrate binned": lambda: cal(o("cal"), binning=2),
    "calibrate in parts": lambda: cal(o("cal"), procs_grid=[2, 1]),
    "calibrate corrected": lambda: cal(o("cal"), dark_filename=inp("dark.fits"), flat_filename=inp("flat.fits")),
    "calibrate occulted": lambda: cal(o("cal"), occulter=[2, 2, 1]),
    "calibrate few frames": lambda: calib.calibrate(W_["ang"][:4], W_["files"][:4], W_["phases"], o("cal"), normalizing_S=1000.0),
    "calibration maps": lambda: cal_maps(),
    "read calibration": lambda: ml.Demodulator(str(c41.W_["d"] / "cal")),
    "calibration moved": lambda: ml.Demodulator(str(c41.W_["d"] / "cal")).mij.copy(),
    "show calibration": lambda: ml.Demodulator(str(c41.W_["d"] / "cal")).show() and None,
    "occulter": lambda: np.array(ml.find_occulter_position(W_["disc"])),
    "occulter threshold": lambda: np.array(ml.find_occulter_position(W_["disc"], method="algo")),
    "occulter circles": lambda: np.array(ml.find_occulter_hough(W_["disc"])),
    "nrgf": lambda: ml.nrgf(W_["disc"], 32, 32, 5),
    "region": lambda: ml.roi_from_polar(W_["disc"], [30, 31], [5, 20], [20, 300]),
    "line": lambda: list(ml.linear_roi(W_["disc"], [3, 5], [40, 50])),
    "line at angle": lambda: list(ml.linear_roi_from_polar(W_["disc"], [30, 30], 33.0)),
    "congrid array": lambda: ml.congrid(W_["disc"], [20, 30]),
    "demosaic array": lambda: ml.demosaic(W_["disc"]),
    "split and merge": lambda: ml.merge_polarizations(ml.split_polarizations(W_["disc"])),
    "trim": lambda: ml.trim_to_match_binning(65, 66, 4),
    "threshold": lambda: ml.auto_threshold(W_["disc"]),
    "dn": lambda: ml.sigma_DN(W_["disc"]),
    "statistics": lambda: np.array([f(W_["disc"]) for f in (ml.mean_minus_std, ml.mean_plus_std, ml.median_minus_std, ml.median_plus_std)]),
    "angles": lambda: np.array(ml.normalize2pi([10, 200, -300])),
    "angles array": lambda: ml.normalize2piarray(np.linspace(-7, 7, 20)),
    "normalization": lambda: ml.get_malus_normalization(W_["peaks"]),
    "keywords": lambda: ml.align_keywords_and_data(hdr(), W_["disc"].copy(), [900, 900], 4.0)[1],
    "sun units": lambda: ml.get_Bsun_units(1000.0, 2.0, 3.0),
    "cameras": lambda: [c().h_image if hasattr(c(), "h_image") else 0 for c in (ml.PolarCam, ml.Kasi, ml.Antarticor)],
    "refused frame": lambda: ml.MicropolImage(inp("junk.fits")),
    "refused frames": lambda: ml.MicropolImage([inp("dark.fits"), inp("junk.fits")]),
    "missing frame": lambda: ml.MicropolImage(inp("nothing.fits")),
    "missing calibration": lambda: ml.Demodulator(inp("nothing")),
    "refused raw": lambda: ml.merge_rawfiles_to_fits([inp("a.raw"), inp("short.raw")], o("m.fits"), 8, 12),
    "refused conversion": lambda: ml.convert_rawfile_to_fits(inp("short.raw"), 8, 12),
    "refused orientations": lambda: calib.calibrate(W_["ang"][:3], W_["files"][:3], W_["phases"], o("cal")),
    "refused boundaries": lambda: cal(o("cal"), tk_boundary=[0.5, 0.1]),
    "refused boundaries in parts": lambda: cal(o("cal"), tk_boundary=[0.5, 0.1], procs_grid=[1, 2]),
    "refused dark": lambda: cal(o("cal"), dark_filename=inp("junk.fits")),
}
MUST_SUCCEED = [k for k in FREE if not k.startswith(("refused", "missing"))]


def _raw():
    p = W_["d"] / "out" / "c.raw"
    p.write_bytes((W_["d"] / "in" / "a.raw").read_bytes())
    return str(p)


def clean():
    calib.fresh(str(W_["d"] / "out"))
    os.makedirs(W_["d"] / "out", mode=0o777)


def produced():
    """Content and permissions of the files below out."""
    r = {}
    base = W_["d"] / "out"
    for p in sorted(base.rglob("*")):
        raw = p.read_bytes() if p.is_file() else None
        if raw is not None and p.suffix == ".fits":
            raw = re.sub(rb"CREATED = .{70}", b"", raw)
        r[str(p.relative_to(base))] = (raw, p.stat().st_mode & 0o777)
    return r


def value(v):
    if isinstance(v, (list, tuple)):
        return [value(x) for x in v]
    if isinstance(v, np.ndarray) and v.dtype == object:
        return v.shape
    if isinstance(v, (int, float, str, type(None))):
        return repr(v)
    return c41.result(v)


def case(kind, name):
    """A closure over fresh operands."""
    if kind is None:
        return FREE[name]
    if kind.startswith("refused "):
        t = c41.Things(kind[8:])
        f = c41.refused(kind[8:])[name]
        return lambda: f(t)
    t = c41.Things(kind)

    def go():
        r = IMAGE_OPS[name](t)
        return t.im if name in c41.INPLACE else r
    return go


QUICK_KINDS = ("float", "int", "spline", "demodulated")
BOUNDS = {
    "quick": "44 functions of the package (9 of the calls refused) and 52 operations on 4 kinds of image, each under 20 settings of the process; 79 refused calls on images; "
             "every function and operation on images also ended at every library line it executes (at most 300 per call, evenly spread in a calibration, 40 with worker processes)",
    "thorough": "all 8 kinds of image, every pair of settings for the functions and one kind of image, up to 2500 lines per call",
}
ASSUMPTIONS = ["calls are ended between lines of library code, not within compiled code", "the first use of a function may fill caches of libraries (imports, fonts, compiled kernels); it is made before"]


def scenarios(tier, seed):
    q = tier == "quick"
    kinds = QUICK_KINDS if q else c41.KINDS[:8]
    for n in FREE:
        yield dict(t="ambient", kind=None, op=n, pairs=not q)
    for k in kinds:
        for n in IMAGE_OPS:
            if not (n == "errors" and k in ("mean", "adjacent", "spline", "demodulated demosaiced", "masked")):
                yield dict(t="ambient", kind=k, op=n, pairs=not q and k == "float")
    for k in kinds:
        for n in names(k):
            yield dict(t="refused", kind="refused " + k, op=n)
    for n in FREE:
        yield dict(t="ended", kind=None, op=n, most=40 if "in parts" in n else 300 if q else 2500)
    for k in ("float", "spline") if q else kinds:
        for n in IMAGE_OPS:
            if not (n == "errors" and k not in ("float", "int", "demodulated")) and n != "default orientations":
                yield dict(t="ended", kind=k, op=n, most=300 if q else 2500)


def names(k):
    old = dict(c41.W_)
    c41.W_["d"] = Path("/nonexistent")      # only for the names of the calls
    r = list(c41.refused(k))
    c41.W_.clear()
    c41.W_.update(old)
    return r


def run(s, ctx):
    if not W_:
        c41.W_.clear()
    w = world(ctx.scratch)
    import matplotlib.pyplot as plt
    plt.close("all")
    unusual()
    saved = Saved()
    try:
        globals()["run_" + s["t"]](s, ctx, w, saved)
    finally:
        interrupt.uninstall()
        saved.restore()
        plt.close("all")
    ctx.trace()


def compare(ctx, before, after, what, shows=False):
    bad = [k for k in before if before[k] != after[k] and not (shows and k == "open figures")]
    ctx.check(not bad, lambda: f"{what}: changed the process: " + "; ".join(f"{k}: {short(before[k], after[k])}" for k in bad))


def short(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        k = [x for x in list(a) + list(b) if a.get(x) != b.get(x)][:3]
        return ", ".join(f"{x} {str(a.get(x))[:40]} -> {str(b.get(x))[:40]}" for x in k)
    if isinstance(a, list) and isinstance(b, list):
        return f"without {str([x for x in a if x not in b])[:120]}, with {str([x for x in b if x not in a])[:200]}"
    return f"{str(a)[-120:]} -> {str(b)[-120:]}"


def perform(kind, op, w, what, ctx, shows):
    import matplotlib.pyplot as plt
    clean()
    fn = case(kind, op)
    before = process(w)
    try:
        r = ("returned", fn())
    except Exception as e:  # noqa
        e.__traceback__ = None
        r = ("raised", f"{type(e).__name__}")
    after = process(w)      # while the result is in use
    if before != after:
        gc.collect()
        after = process(w)
    r = (r[0], value(r[1]))
    compare(ctx, before, after, what, shows)
    plt.close("all")
    files = produced()
    ctx.step()
    return r, files


def run_ambient(s, ctx, w, saved):
    kind, op = s["kind"], s["op"]
    shows = op in SHOWS or op == "show calibration" or op == "normalization"
    label = op if kind is None else f"{op} of a {kind} image"
    want, files = perform(kind, op, w, label, ctx, shows)
    want, files = perform(kind, op, w, label, ctx, shows)
    if kind is not None or op in MUST_SUCCEED:
        ctx.check(want[0] == "returned", f"{label}: {want[1]}")
    elif op not in MUST_SUCCEED:
        ctx.check(want[0] == "raised", f"{label}: not refused")
    mask = os.umask(0)
    os.umask(mask)
    sets = [(n,) for n in AMBIENT]
    if s["pairs"]:
        sets += list(itertools.combinations(AMBIENT, 2))
    for names in sets:
        if "default orientations" in names and (op in USES_DEFAULT or (kind is None and "calib" in op)):
            continue
        what = f"{label} with {' and '.join(names)}"
        try:
            for n in names:
                AMBIENT[n](w["d"])
            m = os.umask(0)
            os.umask(m)
            got, f2 = perform(kind, op, w, what, ctx, shows)
        finally:
            saved.restore()
        ctx.check(got == want, lambda: f"{what}: another result{'' if got[0] == want[0] else f' ({got[1]})'}")
        ctx.check({k: v[0] for k, v in f2.items()} == {k: v[0] for k, v in files.items()}, f"{what}: files differ")
        for p, (raw, mode) in f2.items():
            if p != "c.raw":
                ctx.check(mode == ((0o777 if raw is None else 0o666) & ~m), f"{what}: {p} has mode {mode:o} with umask {m:o}")
        ctx.state(label, names)
    ctx.outcome(label, want[0])


def run_refused(s, ctx, w, saved):
    r, files = perform(s["kind"], s["op"], w, f"{s['op']} on a {s['kind'][8:]} image", ctx, r_shows(s["op"]))
    ctx.state(s["kind"], s["op"])
    ctx.outcome(s["kind"], s["op"], r[0])


def r_shows(op):
    return "histogram" in op


def run_ended(s, ctx, w, saved):
    import matplotlib.pyplot as plt
    kind, op = s["kind"], s["op"]
    label = op if kind is None else f"{op} of a {kind} image"
    shows = op in SHOWS or op in ("show calibration", "normalization")
    for _ in range(2):
        clean()
        fn = case(kind, op)
        end, v, lines, _ = interrupt.run(fn)
        plt.close("all")
    v = None
    ns = list(range(1, lines + 1))
    if s["most"] and lines > s["most"]:
        ns = ns[:s["most"] // 2] + ns[s["most"] // 2::max(1, (lines - s["most"] // 2) * 2 // s["most"])]
    clean()
    gc.collect()
    for i, n in enumerate(ns):
        clean()
        fn = case(kind, op)
        before = process(w)
        exc = (interrupt.Interrupt, interrupt.OutOfMemory)[n % 2]
        end, v, _, where = interrupt.run(fn, n, exc)
        v = None
        after = process(w)
        if before != after:
            gc.collect()
            after = process(w)
        if where is None:
            ctx.count("not reached")
            continue
        compare(ctx, before, after, f"{label} ended at {where}", shows)
        plt.close("all")
        ctx.step()
        ctx.count(end)
        ctx.check(end == "interrupted" or exc is not interrupt.Interrupt, f"{label}: the interruption by the user at {where} is swallowed")
        ctx.state(label, where, n)
        ctx.outcome(label, where)


def warmup():
    import tempfile
    import matplotlib.pyplot as plt
    with tempfile.TemporaryDirectory() as d:
        world(Path(d))
        for n in FREE:
            clean()
            try:
                FREE[n]()
            except Exception:  # noqa
                pass
            plt.close("all")
        for k in ("float", "int", "spline"):
            for n in IMAGE_OPS:
                try:
                    case(k, n)()
                except Exception:  # noqa
                    pass
                plt.close("all")
        W_.clear()
        c41.W_.clear()
