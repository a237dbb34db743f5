"""Every crash point, torn write and failing call of the real raw-file conversion."""
import os

import numpy as np
import micropolarray as ml
from mc import calib, fault, fitsio, ref
from mc.core import Violation

LEVEL = "fault_enumeration"
RULE = ("for every configuration (frame size x file name x earlier FITS file x removal) the file-system calls of one undisturbed conversion are recorded; then one "
        "execution for every fault: process killed before and after each call and within each write at 6 lengths, each call failing once (EIO, ENOSPC) or "
        "from then on, each read and write short; every execution ends in a check of the folder")
BOUNDS = {
    "quick": "frames 2x2, 4x6, 64x96 and 40x1100 (below and above one buffer), 4 path forms, earlier FITS file absent, shorter, equal or longer, removal on and off, "
             "valid and truncated raw files; every fault of every call",
    "thorough": "also 300x500 and 2x5 frames, all path forms for all frames",
}
ASSUMPTIONS = ["what was written before the process ended stays (the file system does not lose completed calls)",
               "the conversion reaches the file system through libc"]


def scenarios(tier, seed):
    q = tier == "quick"
    shapes = [(2, 2), (4, 6), (64, 96), (40, 1100)] + ([] if q else [(2, 5), (300, 500)])
    k = 0
    for h, w in shapes:
        for remove in (True, False):
            for earlier in ("none", "short", "same", "long"):
                for name in range(len(NAMES)):
                    k += 1
                    if q and h * w > 30000 and name != k % len(NAMES):
                        continue
                    yield dict(h=h, w=w, remove=remove, earlier=earlier, name=name, raw="good", salt=seed)
        for raw in ("truncated", "odd", "empty"):
            yield dict(h=h, w=w, remove=True, earlier="short", name=0, raw=raw, salt=seed)


NAMES = [("d", "a.raw", "abs"), ("d.v1", "x.y.z.raw", "abs"), ("d", "b.raw", "rel"), ("raw.raw", "c.raw", "dotdot")]


def pixels(h, w, salt):
    n = np.arange(h * w, dtype=np.int64) + salt
    return ((n * 40503 + 12345) % 65536).astype("<u2").reshape(h, w)


def prepare(base, s, data):
    sub, name, form = NAMES[s["name"]]
    calib.fresh(base)
    d = base / sub
    os.makedirs(d)
    raw = data.tobytes()
    raw = {"good": raw, "truncated": raw[:-2], "odd": raw[:-1], "empty": b""}[s["raw"]]
    p = d / name
    p.write_bytes(raw)
    out = d / (name[:-4] + ".fits")
    if s["earlier"] != "none":
        shape = {"short": (1, 3), "same": data.shape, "long": (200, 60)}[s["earlier"]]
        calib.write(out, np.full(shape, 7, dtype=np.uint16))
    os.chdir(d)
    arg = {"abs": str(p), "rel": name, "dotdot": f"../{sub}/{name}"}[form]
    return arg, p, out, raw


def complete(out, data):
    try:
        _, got = fitsio.read(out)
    except (OSError, fitsio.Broken) as e:
        return False
    return got is not None and got.shape == data.shape and np.array_equal(got.astype(np.int64), data.astype(np.int64))


def run(s, ctx):
    base = ctx.scratch / "c21"
    data = pixels(s["h"], s["w"], s["salt"])

    def one(f):
        arg, p, out, raw = prepare(base, s, data)
        fn = lambda: ml.convert_rawfile_to_fits(arg, s["h"], s["w"], remove_old=s["remove"])
        o = fault.execute(fn, base, *(f or (fault.COUNT,)))
        os.chdir(ctx.scratch)
        kept = p.exists() and p.read_bytes() == raw
        done = complete(out, data)
        ctx.trace()
        ctx.step()
        ctx.state(s["h"], s["w"], s["remove"], s["earlier"], s["name"], s["raw"], f)
        ctx.outcome(o.end, kept, done, p.exists(), out.exists())
        return o, kept, done, p.exists()

    o, kept, done, there = one(None)
    ops = o.ops
    what = f"{s['h']}x{s['w']} {s['raw']} raw file, path form {NAMES[s['name']]}, earlier FITS file: {s['earlier']}, removal {s['remove']}"
    if s["raw"] == "good":
        ctx.check(o.end == "returned", f"{what}: conversion {o.end} {o.error}")
        ctx.check(done, f"{what}: FITS file is not the raw frame")
        ctx.check(there != s["remove"] and (kept or s["remove"]), f"{what}: raw file {'still there' if there else 'gone'}")
    else:
        ctx.check(o.end == "raised", f"{what}: conversion {o.end}")
        ctx.check(kept, f"{what}: conversion raised an error but the original is gone")
    for f in list(fault.crashes(ops)) + list(fault.failures(ops)):
        o, kept, done, there = one(f)
        w = f"{what}: {fault.describe(ops, f)}"
        ctx.count(fault.NAMES[f[0]])
        ctx.check(o.end != "died", f"{w}: {o.error}")
        ctx.check(kept or done, f"{w}: neither the original nor a complete FITS file is left", key=None)
        if o.end == "raised":
            ctx.check(kept, f"{w}: conversion raised {o.error} but the original is gone")
        if not s["remove"]:
            ctx.check(kept, f"{w}: original changed although removal was not requested")
        if o.end == "returned":
            ctx.check(done, f"{w}: conversion reported success without a complete FITS file")
            if s["remove"]:
                ctx.check(not there, f"{w}: conversion reported success but the original is still there")
