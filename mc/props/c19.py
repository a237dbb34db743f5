"""Explicit enumeration of file lists: every order, every combination of date forms, pixel types, mean and sum."""
import datetime
import itertools
import os

import numpy as np
import micropolarray as ml
from mc import calib, fitsio, ref
from mc.core import Violation

BOUNDS = {
    "quick": "all orders of 1..4 files; all 7^1, 7^2, 7^3 combinations of date forms in 2 chronological orders; 14 pixel types alone and all ordered pairs of them; "
             "mean and sum; both image classes; names in sub-folders, relative and with dots",
    "thorough": "all 7^4 combinations of date forms, all orders of 5 files",
}
ASSUMPTIONS = ["file contents whose sum does not exceed 2^53"]
DTYPES = ["u1", "i2", "u2", "i4", "u4", "i8", "f4", "f8"]
FORMS = ["iso", "isofrac", "split", "splitfrac", "dateonly", "none", "isosplit"]
T0 = datetime.datetime(2021, 12, 11, 23, 58, 20)


def when(k):
    return T0 + datetime.timedelta(seconds=97 * k)  # crosses midnight


def cards(form, t):
    f = {"iso": dict(DATE_OBS=t.strftime("%Y-%m-%dT%H:%M:%S")), "isofrac": dict(DATE_OBS=t.strftime("%Y-%m-%dT%H:%M:%S") + ".250"),
         "split": dict(DATE_OBS=t.strftime("%Y-%m-%d"), TIME_OBS=t.strftime("%H:%M:%S")),
         "splitfrac": dict(DATE_OBS=t.strftime("%Y-%m-%d"), TIME_OBS=t.strftime("%H:%M:%S") + ".75"),
         "dateonly": dict(DATE_OBS=t.strftime("%Y-%m-%d")), "none": {},
         # an ISO date-time next to a time card of another file
         "isosplit": dict(DATE_OBS=t.strftime("%Y-%m-%dT%H:%M:%S"), TIME_OBS="00:00:01")}[form]
    return f


DATED = {"iso", "isofrac", "split", "splitfrac", "isosplit"}


def make(d, specs, h, w, salt):
    """specs: (date form, chronological rank, pixel type); returns paths and arrays."""
    os.makedirs(d, exist_ok=True)
    paths, arrs = [], []
    for k, (form, rank, dt) in enumerate(specs):
        a = np.floor(ref.code(h, w, salt=salt + 7 * k)) if np.dtype(dt).kind in "iu" else ref.code(h, w, salt=salt + 7 * k)
        if dt == "u1":
            a = a % 251
        if dt in ("i2", "i4", "i8", "f4", "f8"):
            a = a - 300
        a = a.astype(dt)
        p = f"{d}/{'qzmbxa'[k]}.{k}_img.fits"
        fitsio.write(p, a, OBJECT=f"obj{k}", NUMBER=k, **cards(form, when(rank)))
        paths.append(p)
        arrs.append(a.astype(float))
    return paths, arrs


def scenarios(tier, seed):
    q = tier == "quick"
    k = seed
    for n in (1, 2, 3) if q else (1, 2, 3, 4):
        for first in FORMS:
            yield dict(t="dates", n=n, first=first, k=k)
            k += 1
    for n in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5):
        for h, w in [(2, 2), (4, 6), (6, 2)]:
            yield dict(t="orders", n=n, h=h, w=w, k=k)
            k += 1
    for a in DTYPES:
        yield dict(t="types", a=a, k=k)
        k += 1
    yield dict(t="paths", k=k)


def run(s, ctx):
    globals()["run_" + s["t"]](s, ctx)


def parse(v):
    return datetime.datetime.fromisoformat(str(v).strip())


def decide(ctx, paths, arrs, specs, what, bothclasses=True):
    n = len(paths)
    for cls in (ml.Image, ml.MicropolImage) if bothclasses else (ml.MicropolImage,):
        for avg in (True, False):
            given = list(paths)
            im = cls(given, averageimages=avg)
            w = f"{cls.__name__} of {what}, {'mean' if avg else 'sum'}"
            want = sum(arrs) / (n if avg else 1)
            ctx.same(im.data, want, f"{w}: data", atol=1e-12 * max(1.0, max(np.abs(a).max() for a in arrs)) * n)
            ctx.check(given == paths, f"{w}: the list of the caller changed")
            ctx.check(im.header["OBJECT"] == f"obj{ctx_first(paths)}" and im.header["NUMBER"] == ctx_first(paths), f"{w}: header is not the first file's")
            ctx.check((im.header["NAXIS2"], im.header["NAXIS1"]) == want.shape, f"{w}: size in the header")
            if cls is ml.MicropolImage:
                ctx.same(im.Stokes_vec, ref.stokes(ref.split(want), dict(im.angle_dic)), f"{w}: Stokes maps", atol=1e-9 * max(1.0, np.abs(want).max()))
            h = im.header
            if n == 1:
                ctx.check(im.filename == paths[0], f"{w}: file name {im.filename}")
                ctx.check("SUMOF" not in h and "STRT-OBS" not in h, f"{w}: cards of a sum")
            else:
                ctx.check(h.get("SUMOF") == n, f"{w}: number of files {h.get('SUMOF')}")
                times = [when(r) for f, r, _ in specs if f in DATED]
                if times:
                    ctx.check("STRT-OBS" in h and "END-OBS" in h, f"{w}: no observation times")
                    a, b = parse(h["STRT-OBS"]), parse(h["END-OBS"])
                    a, b = a.replace(microsecond=0), b.replace(microsecond=0)
                    ctx.check((a, b) == (min(times), max(times)), f"{w}: observed from {a} to {b}, expected {min(times)} to {max(times)}")
                else:
                    ctx.check("STRT-OBS" not in h and "END-OBS" not in h, f"{w}: observation times {h.get('STRT-OBS')} of files without any")
            ctx.step()
            ctx.state(what, cls.__name__, avg)
            ctx.outcome(np.asarray(im.data))
    ctx.trace()


def ctx_first(paths):
    return int(os.path.basename(paths[0]).split(".")[1].split("_")[0])


def run_dates(s, ctx):
    n = s["n"]
    d = ctx.scratch / "dt"
    for rest in itertools.product(FORMS, repeat=n - 1):
        forms = (s["first"],) + rest
        for ranks in (list(range(n)), list(range(n))[::-1]) if n < 3 else ([1, 2, 0, 3][:n] if n == 4 else [1, 2, 0], [2, 0, 1, 3][:n]):
            calib.fresh(d)
            specs = [(f, r, "f8") for f, r in zip(forms, ranks)]
            paths, arrs = make(d, specs, 2, 4, s["k"])
            decide(ctx, paths, arrs, specs, f"files dated {[f'{f} #{r}' for f, r, _ in specs]}", bothclasses=False)


def run_orders(s, ctx):
    n = s["n"]
    d = ctx.scratch / "or"
    calib.fresh(d)
    dts = ["f8", "u2", "i2", "f4", "i4"]
    specs = [(FORMS[(k + n) % 4], (k * 2 + 1) % n, dts[k]) for k in range(n)]
    paths, arrs = make(d, specs, s["h"], s["w"], s["k"])
    for p in itertools.permutations(range(n)):
        decide(ctx, [paths[k] for k in p], [arrs[k] for k in p], [specs[k] for k in p], f"files in order {p} of {s['h']}x{s['w']}")
    if n > 1:
        # the same file twice
        q = [0, 1, 0]
        decide(ctx, [paths[k] for k in q], [arrs[k] for k in q], [specs[k] for k in q], f"files {q}")


def run_types(s, ctx):
    d = ctx.scratch / "ty"
    for b in [None] + DTYPES:
        calib.fresh(d)
        specs = [("iso", 1, s["a"])] + ([("split", 0, b)] if b else [])
        paths, arrs = make(d, specs, 4, 4, s["k"])
        decide(ctx, paths, arrs, specs, f"files of types {[t for _, _, t in specs]}")
        if b is None:
            for cls in (ml.Image, ml.MicropolImage):
                im = cls(paths[0])  # a string
                ctx.exact(im.data, arrs[0], f"{s['a']} file given as a string: data")
                ctx.check(im.filename == paths[0] and im.header["OBJECT"] == "obj0", f"{s['a']} file given as a string: name or header")
    # extreme values of the type
    t = np.dtype(s["a"])
    if t.kind in "iu" and t.itemsize < 8:
        i = np.iinfo(t)
        a = np.full((2, 2), i.max, dtype=t)
        b = np.full((2, 2), i.min, dtype=t)
        a[0, 1] = i.max - 1
        for x, y in ((a, a), (b, b), (a, b)):
            calib.fresh(d)
            os.makedirs(d)
            for k, v in enumerate((x, y)):
                fitsio.write(d / f"p.{k}_e.fits", v, OBJECT=f"obj{k}", NUMBER=k)
            paths = [str(d / f"p.{k}_e.fits") for k in range(2)]
            decide(ctx, paths, [x.astype(float), y.astype(float)], [("none", 0, "")] * 2, f"{s['a']} files with extreme values")


def run_paths(s, ctx):
    base = ctx.scratch / "pa"
    calib.fresh(base)
    for sub in ("a", "b.c/d", "x y", "r.raw"):
        for n in (1, 2, 3):
            d = base / sub
            specs = [("iso", k, "f8") for k in range(n)]
            paths, arrs = make(d, specs, 2, 2, s["k"])
            os.chdir(base)
            for form in ("abs", "rel", "dot"):
                ps = [{"abs": p, "rel": os.path.relpath(p, base), "dot": "./" + os.path.relpath(p, base)}[form] for p in paths]
                decide(ctx, ps, arrs, specs, f"{n} files in {form} '{sub}'")
    os.chdir(ctx.scratch)
    for cls in (ml.Image, ml.MicropolImage):
        ctx.raises(Exception, lambda: cls([]), f"{cls.__name__} of no files")
        ctx.raises(Exception, lambda: cls(str(base / "absent.fits")), f"{cls.__name__} of an absent file")
        ctx.raises(Exception, lambda: cls([paths[0], str(base / "absent.fits")]), f"{cls.__name__} of an absent second file")
