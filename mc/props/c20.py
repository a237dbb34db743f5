"""Explicit enumeration of raw files, names, orders and modes through the real converters; FITS files are read by an independent parser."""
import itertools
import os

import numpy as np
import micropolarray as ml
from mc import calib, fitsio, ref
from mc.core import Violation

BOUNDS = {
    "quick": "all 65536 pixel values at both byte positions of 5 frame shapes; all even and odd frame shapes 1..6 x 1..6; 12 names x 6 folders x 3 path forms; all orders "
             "of 1..3 of 4 raw files, both modes, plus average_rawfiles_to_fits; rejected names; save_as_raw with all 32768 values and 6 pixel types",
    "thorough": "frame shapes 1..10, all orders of up to 5 files",
}
STEMS = ["a", "a.b", "x.y.z", "raw", "raw.raw", "frame 1", "img.raw_0", "2021-12-11T10.20.30", "fits", "a.fits", "-x", "_.._"]
DIRS = ["", "d", "d.1", "a.raw", "deep/er.fits/x", "with space"]


def scenarios(tier, seed):
    q = tier == "quick"
    for h, w in [(256, 256), (512, 128), (128, 512), (1, 65536), (65536, 1)]:
        yield dict(t="values", h=h, w=w)
    m = 6 if q else 10
    for h in range(1, m + 1):
        yield dict(t="shapes", h=h, m=m, k=seed)
    for d in DIRS:
        yield dict(t="names", d=d, k=seed)
    for n in (1, 2, 3) if q else (1, 2, 3, 4, 5):
        yield dict(t="merge", n=n, k=seed)
    yield dict(t="reject", k=seed)
    for dt in ("i2", "u2", "i4", "f8", "f4", ">i2"):
        yield dict(t="asraw", dt=dt)


def run(s, ctx):
    globals()["run_" + s["t"]](s, ctx)


def check(ctx, path, want, what):
    try:
        _, got = fitsio.read(path)
    except (OSError, fitsio.Broken) as e:
        raise Violation(f"{what}: {e}")
    ctx.check(got is not None and got.shape == want.shape, f"{what}: frame of {None if got is None else got.shape}")
    ctx.same(got, want, what, rtol=1e-14)
    im = ml.Image(str(path))
    ctx.same(im.data, want, f"{what}, loaded", rtol=1e-14)


def run_values(s, ctx):
    h, w = s["h"], s["w"]
    for k, vals in enumerate((np.arange(65536), (np.arange(65536) * 257 + 129) % 65536)):
        d = ctx.scratch / "v"
        calib.fresh(d)
        os.makedirs(d)
        raw = b"".join(int(v).to_bytes(2, "little") for v in vals)
        (d / "f.raw").write_bytes(raw)
        ml.convert_rawfile_to_fits(str(d / "f.raw"), h, w)
        check(ctx, d / "f.fits", vals.reshape(h, w).astype(float), f"all pixel values in {h}x{w}")
        ml.merge_rawfiles_to_fits([str(d / "f.raw")] * 2, str(d / "s.fits"), h, w)
        check(ctx, d / "s.fits", 2.0 * vals.reshape(h, w), f"sum of all pixel values in {h}x{w}")
        ml.average_rawfiles_to_fits([str(d / "f.raw")] * 2, str(d / "m.fits"), h, w)
        check(ctx, d / "m.fits", 1.0 * vals.reshape(h, w), f"mean of all pixel values in {h}x{w}")
        ctx.check((d / "f.raw").read_bytes() == raw, "raw file changed")
        ctx.step(3 * 65536)
        ctx.states.update((k << 40) + (h << 20) + v for v in range(65536))
    ctx.trace(2)


def frame(h, w, k):
    return (np.floor(ref.code(h, w, salt=k)) * 31 + k).astype(int) % 65536


def write(p, a):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f:
        f.write(b"".join(int(v).to_bytes(2, "little") for v in a.ravel()))


def run_shapes(s, ctx):
    h = s["h"]
    for w in range(1, s["m"] + 1):
        d = calib.fresh(ctx.scratch / "s")
        a = frame(h, w, s["k"])
        write(f"{d}/r.raw", a)
        for rm in (False, True):
            ml.convert_rawfile_to_fits(f"{d}/r.raw", h, w, remove_old=rm)
            check(ctx, f"{d}/r.fits", a.astype(float), f"{h}x{w} frame")
            ctx.check(os.path.exists(f"{d}/r.raw") != rm, f"{h}x{w} frame, removal {rm}")
        ctx.step(2)
        ctx.state(h, w, a)
        # frames which the file cannot fill
        write(f"{d}/t.raw", a)
        ctx.raises(Exception, lambda: ml.convert_rawfile_to_fits(f"{d}/t.raw", h + 1, w, remove_old=True), f"{h}x{w} file read as {h + 1}x{w}")
        ctx.check(os.path.exists(f"{d}/t.raw"), "raw file lost by a rejected conversion")
    ctx.trace()


def run_names(s, ctx):
    base = ctx.scratch / "n"
    for form in ("abs", "rel", "up"):
        for stem in STEMS:
            calib.fresh(base)
            d = base / "top" / s["d"]
            os.makedirs(d)
            os.makedirs(base / "top" / "side", exist_ok=True)
            a = frame(3, 4, s["k"])
            write(str(d / f"{stem}.raw"), a)
            rel = os.path.join(s["d"], f"{stem}.raw")
            os.chdir(base / "top" / ("side" if form == "up" else ""))
            arg = {"abs": str(d / f"{stem}.raw"), "rel": rel, "up": "../" + rel}[form]
            what = f"conversion of '{arg if form != 'abs' else rel}' ({form})"
            try:
                ml.convert_rawfile_to_fits(arg, 3, 4)
            finally:
                os.chdir(ctx.scratch)
            every = sorted(os.path.relpath(os.path.join(r, n), base / "top") for r, _, ns in os.walk(base) for n in ns)
            want = sorted([rel, os.path.join(s["d"], f"{stem}.fits")])
            ctx.check(every == want, f"{what}: files {every}")
            check(ctx, d / f"{stem}.fits", a.astype(float), what)
            # merging next to it
            os.chdir(base / "top" / ("side" if form == "up" else ""))
            out = arg[:-4] + ".sum.fits"
            try:
                ml.merge_rawfiles_to_fits(arg, out, 3, 4)
            finally:
                os.chdir(ctx.scratch)
            check(ctx, d / f"{stem}.sum.fits", a.astype(float), f"merging into '{out}'")
            ctx.step(2)
            ctx.state(form, stem, s["d"])
    ctx.trace()


def run_merge(s, ctx):
    n = s["n"]
    d = calib.fresh(ctx.scratch / "m")
    for h, w in [(2, 2), (3, 5)]:
        arr = [frame(h, w, s["k"] + 11 * k) for k in range(max(4, n))]
        arr[0][0, 0] = 65535
        arr[1][0, 0] = 65535
        for k, a in enumerate(arr):
            write(f"{d}/{k}.raw", a)
        for p in itertools.permutations(range(len(arr)), n):
            files = [f"{d}/{k}.raw" for k in p]
            tot = sum(arr[k].astype(float) for k in p)
            for name, fn, want in (
                    ("sum", lambda o: ml.merge_rawfiles_to_fits(files, o, h, w), tot),
                    ("explicit sum", lambda o: ml.merge_rawfiles_to_fits(files, o, h, w, mode="sum"), tot),
                    ("average mode", lambda o: ml.merge_rawfiles_to_fits(files, o, h, w, mode="average"), tot / n),
                    ("average", lambda o: ml.average_rawfiles_to_fits(files, o, h, w), tot / n)):
                o = f"{d}/{name}.out.fits"
                keep = list(files)
                fn(o)
                check(ctx, o, want, f"{name} of raw files {p}")
                ctx.check(files == keep, f"{name}: the list of the caller changed")
                ctx.step()
                ctx.state(name, p, h, w)
        for k, a in enumerate(arr):
            with open(f"{d}/{k}.raw", "rb") as f:
                ctx.check(f.read() == a.astype("<u2").tobytes(), f"raw file {k} changed")
    ctx.trace()


def run_reject(s, ctx):
    d = calib.fresh(ctx.scratch / "r")
    a = frame(2, 3, s["k"])
    for n in ("a.raw", "a.bin", "a", "a.raw.gz", "a.fits", "raw", "a.RAW.txt"):
        write(f"{d}/{n}", a)
    before = sorted(os.listdir(d))
    for n in before:
        if n == "a.raw":
            continue
        for rm in (False, True):
            ctx.raises(ValueError, lambda: ml.convert_rawfile_to_fits(f"{d}/{n}", 2, 3, remove_old=rm), f"conversion of '{n}'")
            ctx.check(sorted(os.listdir(d)) == before, f"conversion of '{n}': files {os.listdir(d)}")
            ctx.step()
    for o in ("x", "x.fit", "x.fits.gz", "x.raw", "xfits", "x.txt", "d.fits/x"):
        for fn in (ml.merge_rawfiles_to_fits, ml.average_rawfiles_to_fits):
            ctx.raises(ValueError, lambda: fn([f"{d}/a.raw"], f"{d}/{o}", 2, 3), f"merging into '{o}'")
            ctx.check(sorted(os.listdir(d)) == before, f"merging into '{o}': files {os.listdir(d)}")
            ctx.step()
    ctx.raises(Exception, lambda: ml.merge_rawfiles_to_fits([f"{d}/a.raw", f"{d}/absent.raw"], f"{d}/y.fits", 2, 3), "merging an absent file")
    ctx.raises(Exception, lambda: ml.convert_rawfile_to_fits(f"{d}/absent.raw", 2, 3), "converting an absent file")
    im = ml.Image(np.ones((2, 2)))
    for o in ("x", "x.fits", "x.ra", "raw"):
        ctx.raises(ValueError, lambda: im.save_as_raw(f"{d}/{o}"), f"saving as raw '{o}'")
    ctx.trace()


def run_asraw(s, ctx):
    d = calib.fresh(ctx.scratch / "w")
    os.makedirs(d)
    v = np.arange(32768)
    for h, w in [(128, 256), (256, 128), (2, 16384)]:
        for cls in (ml.Image, ml.MicropolImage):
            a = v.reshape(h, w).astype(s["dt"])
            im = cls(a)
            im.save_as_raw(f"{d}/o.p.raw")
            ctx.exact(im.data, a, "data after saving as raw")
            ctx.check(os.path.getsize(f"{d}/o.p.raw") == 65536, "size of the raw file")
            ml.convert_rawfile_to_fits(f"{d}/o.p.raw", h, w)
            check(ctx, f"{d}/o.p.fits", v.reshape(h, w).astype(float), f"{s['dt']} {h}x{w} {cls.__name__} saved as raw and converted")
            ctx.step(2)
            ctx.state(s["dt"], h, w, cls.__name__)
    ctx.trace()
