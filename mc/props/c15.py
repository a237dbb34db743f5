"""Every subset and listing order of the files of a calibration folder, every crash point of its writer and every failing call of its loader."""
import os

import numpy as np
import micropolarray as ml
from mc import calib, fault, fitsio, ref
from mc.core import Violation
from mc.props.c14 import Schedule, scheduled

LEVEL = "fault_enumeration"
RULE = ("every subset of the 12 matrix files; every listing order in {rotations, reversals, pairwise exchanges} of a folder with all its files; every pixel type, "
        "shape and folder name; for the writer one execution per fault: process ended before and after each file-system call and within each write at up "
        "to 6 lengths; for the loader one execution per failing, short or torn call")
BOUNDS = {
    "quick": "all 4096 subsets (with and without the other files); 12 rotations x 2 directions and all 276 exchanges of 24 files; 7 pixel types, 6 shapes, 9 folder "
             "names; writer on 4x4 and 24x32 frames, every crash point; loader: every failing call",
    "thorough": "writer also on 2x2, 12x8, 40x60 frames; loader on 4 shapes",
}
ASSUMPTIONS = ["what was written before the process ended stays (the file system does not lose completed calls)",
               "the writer and the loader reach the file system through libc"]
TIME_LIMIT = 400.0
IJ = [(i, j) for i in range(3) for j in range(4)]
NAMES = ["cal", "cal_2023_01", "a.b.c", "cal[1]", "ca*l?", "M00", "cal.fits", "x y", "M12.fits"]


def mat(i, j, h, w, salt):
    return (ref.code(h, w, salt=17 * i + 5 * j + salt) - 900) / 64


def write_folder(d, h, w, salt, dtype=">f8", flags="mixed", extras=True):
    os.makedirs(d, exist_ok=True)
    want = {}
    for i, j in IJ:
        m = mat(i, j, h, w, salt)
        if np.dtype(dtype).kind in "iu":
            m = np.floor(np.abs(m)) % 120
        m = m.astype(dtype)
        fitsio.write(f"{d}/M{i}{j}.fits", m)
        want[i, j] = m.astype(float)
    fl = None
    if flags is not None:
        fl = {"mixed": (np.arange(h * w).reshape(h, w) % 3 != 1).astype(float), "none": np.zeros((h, w)), "all": np.ones((h, w))}[flags]
        fitsio.write(f"{d}/fit_found_flag.fits", fl)
    maps = {}
    if extras:
        for k, n in enumerate(("transmittancies", "efficiences", "phases")):
            maps[n] = ref.code(2 * h, 2 * w, salt=salt + 3 * k)
            fitsio.write(f"{d}/{n}.fits", maps[n])
        os.makedirs(f"{d}/covariance_tensor", exist_ok=True)
        for i in range(3):
            for j in range(3):
                maps[i, j] = ref.code(2 * h, 2 * w, salt=salt + 7 * i + j)
                fitsio.write(f"{d}/covariance_tensor/C{i}{j}.fits", maps[i, j])
        fitsio.write(f"{d}/covariance_tensor/reduced_chisquare.fits", np.zeros((2 * h, 2 * w)))
        with open(f"{d}/notes.txt", "w") as f:
            f.write("M99\n")
        with open(f"{d}/M34.txt", "w") as f:
            f.write("not a matrix\n")
    return want, fl, maps


def compare(ctx, dem, want, fl, maps, what):
    m = np.asarray(dem.mij)
    h, w = want[0, 0].shape
    ctx.check(m.shape == (3, 4, h, w), f"{what}: matrices have shape {m.shape}")
    for i, j in IJ:
        ctx.exact(m[i, j], want[i, j], f"{what}: matrix element {i}{j}")
    if fl is None:
        ctx.check(dem.fit_found_flags is None, f"{what}: flags appeared")
    else:
        ctx.check(dem.fit_found_flags is not None, f"{what}: flags lost")
        ctx.exact(dem.fit_found_flags, fl, f"{what}: flags")
    if maps:
        ctx.exact(dem.tk, maps["transmittancies"], f"{what}: transmittances")
        ctx.exact(dem.eff, maps["efficiences"], f"{what}: efficiencies")
        ctx.exact(dem.phi, maps["phases"], f"{what}: phases")
        c = dem.Cij
        ctx.check(c is not None, f"{what}: covariance tensor lost")
        for i in range(3):
            for j in range(3):
                ctx.exact(c[i, j], maps[i, j], f"{what}: covariance element {i}{j}")


# ---------------------------------------------------------------- listing order
class Listing:
    """os.scandir and os.listdir giving names in a chosen order (a function of the sorted names)."""

    def __init__(self, order):
        self.order = order

    def __enter__(self):
        self.scandir, self.listdir = os.scandir, os.listdir
        outer = self

        class It:
            def __init__(self, path):
                with outer.scandir(path) as it:
                    es = sorted(it, key=lambda e: e.name)
                self.it = iter([es[k] for k in outer.order(len(es))])

            def __iter__(self):
                return self

            def __next__(self):
                return next(self.it)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

            def close(self):
                pass

        def listdir(path="."):
            es = sorted(outer.listdir(path))
            return [es[k] for k in outer.order(len(es))]
        os.scandir, os.listdir = lambda path=".": It(path), listdir
        return self

    def __exit__(self, *a):
        os.scandir, os.listdir = self.scandir, self.listdir


def rot(k, rev):
    def order(n):
        o = [(q + k) % n for q in range(n)] if n else []
        return o[::-1] if rev else o
    return order


def swap(a, b):
    def order(n):
        o = list(range(n))
        if a < n and b < n:
            o[a], o[b] = o[b], o[a]
        return o
    return order


# ---------------------------------------------------------------- scenarios
def scenarios(tier, seed):
    q = tier == "quick"
    for hi in range(16):
        for extras in (False, True):
            yield dict(t="subsets", hi=hi, extras=extras, salt=seed)
    yield dict(t="orders", n=0, salt=seed)
    for a in range(24):
        yield dict(t="orders", n=1, a=a, salt=seed)
    k = seed
    for dt in (">f8", "<f8", ">f4", ">i2", ">i4", "u1", ">i8"):
        for h, w in [(2, 2), (3, 5), (1, 1), (1, 7), (6, 4), (9, 2)]:
            k += 1
            yield dict(t="load", dt=dt, h=h, w=w, name=k % len(NAMES), flags=[None, "mixed", "none", "all"][k % 4], salt=k)
    for n in range(len(NAMES)):
        for form in ("abs", "slash", "rel", "dot"):
            yield dict(t="load", dt=">f8", h=3, w=2, name=n, flags="mixed", form=form, salt=seed)
    yield dict(t="missing", salt=seed)
    yield dict(t="extra", salt=seed)
    shapes = [(4, 4, 2), (24, 32, 2)] + ([] if q else [(2, 2, 1), (12, 8, 2), (40, 60, 2)])
    for h, w, g in shapes:
        for part in range(8):
            yield dict(t="crash", h=h, w=w, g=g, part=part, parts=8, salt=seed)
    for h, w in [(3, 4)] + ([] if q else [(1, 1), (40, 30), (20, 20)]):
        for part in range(4):
            yield dict(t="readfail", h=h, w=w, part=part, parts=4, salt=seed)


def warmup():
    ml.MicropolImage(np.ones((4, 4))).rebin(1)


def run(s, ctx):
    globals()["run_" + s["t"]](s, ctx)


def run_subsets(s, ctx):
    src = ctx.scratch / "full"
    calib.fresh(src)
    want, fl, maps = write_folder(src, 2, 3, s["salt"], extras=s["extras"])
    if not s["extras"]:
        os.remove(src / "fit_found_flag.fits")
        fl = None
    d = ctx.scratch / "sub"
    for lo in range(256):
        mask = s["hi"] * 256 + lo
        calib.fresh(d)
        os.makedirs(d)
        for n in os.listdir(src):
            if n.startswith("M") and n.endswith(".fits"):
                if not mask >> IJ.index((int(n[1]), int(n[2]))) & 1:
                    continue
            if os.path.isdir(src / n):
                continue
            os.link(src / n, d / n)
        missing = [f"M{i}{j}" for k, (i, j) in enumerate(IJ) if not mask >> k & 1]
        what = f"folder without {', '.join(missing) or 'nothing'}"
        if missing:
            ctx.raises(Exception, lambda: ml.Demodulator(str(d)), what)
        else:
            dem = ml.Demodulator(str(d))
            compare(ctx, dem, want, fl, None, "complete folder")
        ctx.step()
        ctx.trace()
        ctx.state("subset", mask, s["extras"])
        ctx.outcome(bool(missing))
    ctx.count("subsets", 256)


def run_orders(s, ctx):
    d = ctx.scratch / "ord"
    calib.fresh(d)
    want, fl, maps = write_folder(d, 2, 3, s["salt"])
    n = len(os.listdir(d))
    if s["n"] == 0:
        orders = [(f"rotated by {k}{' and reversed' if r else ''}", rot(k, r)) for k in range(n) for r in (False, True)]
    else:
        orders = [(f"with entries {s['a']} and {b} exchanged", swap(s["a"], b)) for b in range(s["a"])]
    for txt, o in orders:
        with Listing(o):
            dem = ml.Demodulator(str(d))
            compare(ctx, dem, want, fl, maps, f"folder listed {txt}")
        ctx.step()
        ctx.trace()
        ctx.state("order", txt)
        ctx.count("listing orders")


def run_load(s, ctx):
    h, w = s["h"], s["w"]
    base = ctx.scratch / "ld"
    calib.fresh(base)
    d = base / "p.1" / NAMES[s["name"]]
    os.makedirs(d)
    want, fl, maps = write_folder(d, h, w, s["salt"], s["dt"], s["flags"])
    os.chdir(base)
    form = s.get("form", "abs")
    arg = {"abs": str(d), "slash": str(d) + "/", "rel": f"p.1/{NAMES[s['name']]}", "dot": f"./p.1/../p.1/{NAMES[s['name']]}"}[form]
    what = f"folder '{arg[-30:]}', {s['dt']} matrices of {h}x{w}, flags {s['flags']}"
    dem = ml.Demodulator(arg)
    compare(ctx, dem, want, fl, maps, what)
    # loading is repeatable and independent of the first object
    np.asarray(dem.mij)[:] = 0
    dem2 = ml.Demodulator(arg)
    compare(ctx, dem2, want, fl, maps, what + ", loaded again")
    os.chdir(ctx.scratch)
    ctx.step(2)
    ctx.trace()
    ctx.state(s)


def run_missing(s, ctx):
    d = ctx.scratch / "mi"
    calib.fresh(d)
    ctx.raises(Exception, lambda: ml.Demodulator(str(d)), "missing folder")
    ctx.raises(Exception, lambda: ml.Demodulator(str(d / "deep")), "missing folder")
    os.makedirs(d)
    ctx.raises(Exception, lambda: ml.Demodulator(str(d)), "empty folder")
    want, fl, maps = write_folder(d / "x", 2, 2, s["salt"])
    ctx.raises(Exception, lambda: ml.Demodulator(str(d)), "folder whose subfolder is a calibration")
    # matrices of unequal size, damaged files
    fitsio.write(d / "x/M12.fits", np.zeros((3, 2)))
    ctx.raises(Exception, lambda: ml.Demodulator(str(d / "x")), "matrices of unequal size")
    write_folder(d / "x", 2, 2, s["salt"])
    (d / "x/M21.fits").write_bytes(b"")
    ctx.raises(Exception, lambda: ml.Demodulator(str(d / "x")), "empty matrix file")
    # covariance tensor absent, incomplete
    write_folder(d / "y", 2, 2, s["salt"], extras=False)
    ctx.check(ml.Demodulator(str(d / "y")).Cij is None, "covariance tensor of a folder without one")
    for i in range(3):
        for j in range(3):
            want, fl, maps = write_folder(d / "z", 2, 2, s["salt"])
            os.remove(d / f"z/covariance_tensor/C{i}{j}.fits")
            dem = ml.Demodulator(str(d / "z"))
            ctx.raises(Exception, lambda: dem.Cij, f"covariance tensor without C{i}{j}")
            ctx.step()
    ctx.step(7)
    ctx.trace()


def run_extra(s, ctx):
    """A missing matrix is noticed also when another FITS file has two digits in its name."""
    d = ctx.scratch / "ex"
    calib.fresh(d)
    write_folder(d, 1, 2, s["salt"], extras=False)
    for i, j in IJ:
        for a, b in IJ:
            if (a, b) == (i, j):
                continue
            os.rename(d / f"M{i}{j}.fits", d / f"flat_{a}{b}.fits")
            ctx.raises(Exception, lambda: ml.Demodulator(str(d)), f"folder without M{i}{j} but with flat_{a}{b}.fits")
            os.rename(d / f"flat_{a}{b}.fits", d / f"M{i}{j}.fits")
            ctx.step()
            ctx.state("extra", i, j, a, b)
    ctx.trace()


# ---------------------------------------------------------------- crashes of the writer
def run_crash(s, ctx):
    h, w = s["h"], s["w"]
    sen = calib.Sensor(h, w, [0, 45, -45, 90], salt=s["salt"], block=1 if h * w <= 100 else 10)
    ang = [0, 45, 90, -45]
    S = 4000 + ref.code(h, w) / 2
    frames = [sen.frame(S, a) for a in ang]
    for f in frames:
        f[0, 0] = 0  # one unfitted superpixel
    src = ctx.scratch / "cin"
    files = calib.write_frames(src, frames)
    base = ctx.scratch / "cout"

    memo = {}  # the fits are computed once: their input is the same every time

    def write():
        with scheduled(Schedule()) as sch:
            sch.memo = memo
            ml.calculate_demodulation_tensor(ang, files, [0, 45, -45, 90], gain=2.75, output_dir=str(base / "new" / "cal"), normalizing_S=S,
                                             procs_grid=[s["g"], s["g"]])
    # an undisturbed calibration
    calib.fresh(base)
    os.makedirs(base)
    write()
    calib.fresh(base)
    os.makedirs(base)
    o = fault.execute(write, base)
    ctx.check(o.end == "returned", f"calibration {o.end}: {o.error}")
    ops = o.ops
    ctx.check(len(ops) > 26, f"only {len(ops)} file-system calls seen")
    got = calib.load_all(base / "new" / "cal")
    good = ml.Demodulator(str(base / "new" / "cal"))
    want = {(i, j): np.array(good.mij[i, j], dtype=float) for i, j in IJ}
    for i, j in IJ:
        ctx.exact(want[i, j], got[f"M{i}{j}.fits"], f"matrix element {i}{j} loaded and stored")
    th = calib.theoretical([0, 45, -45, 90])
    exp = sen.matrices()
    exp[:, :, 0, 0] = th
    for i, j in IJ:
        ctx.same(want[i, j], exp[i, j], f"matrix element {i}{j} and the sensor's", rtol=1e-4)
    todo = [f for k, f in enumerate(fault.crashes(ops)) if k % s["parts"] == s["part"]]
    for f in todo:
        calib.fresh(base)
        os.makedirs(base)
        o = fault.execute(write, base, *f)
        what = f"writing a {h}x{w} calibration, process {fault.describe(ops, f)}"
        ctx.check(o.end == "killed", f"{what}: the process ended otherwise ({o.end} {o.error})")
        try:
            dem = ml.Demodulator(str(base / "new" / "cal"))
            m = np.asarray(dem.mij)
        except Exception as e:  # noqa
            ctx.outcome("fails", type(e).__name__)
            ctx.count("loads that failed")
        else:
            ctx.check(m.shape == good.mij.shape, f"{what}: loaded matrices have shape {m.shape}")
            for i, j in IJ:
                ctx.exact(m[i, j], want[i, j], f"{what}: loaded matrix element {i}{j}")
            ctx.count("loads that succeeded")
            ctx.outcome("complete")
        ctx.count(fault.NAMES[f[0]])
        ctx.step()
        ctx.trace()
        ctx.state("crash", h, w, f)


def run_readfail(s, ctx):
    d = ctx.scratch / "rf"
    calib.fresh(d)
    want, fl, maps = write_folder(d, s["h"], s["w"], s["salt"])

    def load():
        dem = ml.Demodulator(str(d))
        m = np.array(dem.mij, dtype=float)
        f = dem.fit_found_flags
        c = dem.Cij
        v = [m.tolist(), None if f is None else np.asarray(f, float).tolist(), None if c is None else c.tolist(),
             np.array(dem.tk, float).tolist(), np.array(dem.eff, float).tolist(), np.array(dem.phi, float).tolist()]
        return v
    o = fault.execute(load, d)
    ctx.check(o.end == "returned", f"loading {o.end}: {o.error}")
    ops, full = o.ops, o.value
    ctx.exact(np.array(full[0]), np.array([[want[i, j] for j in range(4)] for i in range(3)]), "matrices")
    for k, f in enumerate(fault.failures(ops)):
        if k % s["parts"] != s["part"]:
            continue
        o = fault.execute(load, d, *f)
        what = f"loading a calibration, {fault.describe(ops, f)}"
        ctx.check(o.end in ("returned", "raised"), f"{what}: {o.end} {o.error}")
        if o.end == "returned":
            ctx.check(o.value == full, f"{what}: loaded something else")
        ctx.outcome(o.end)
        ctx.count("failing reads " + o.end)
        ctx.step()
        ctx.trace()
        ctx.state("readfail", s["h"], s["w"], f)
