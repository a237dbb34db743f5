"""The whole data reduction: every route from raw sensor files to saved Stokes maps, through one real calibration per sensor and choice of corrections."""
import itertools
import os
from pathlib import Path

import numpy as np
import micropolarray as ml
from mc import calib, fitsio, ref

BOUNDS = {
    "quick": "24 orientation assignments x {no dark, dark, dark and flat} x binning 1, 2 x 1 or 3 exposures: calibrated from raw files, then every route through "
             "5 ways of combining the exposures x 5 ways of subtracting the dark x 2 of applying the flat x 3 of keeping the frame x 3 of reading the result x "
             "demosaicing or not",
    "thorough": "also 2 and 4 exposures, binning 3, process grids 2x1 and 2x2, transposed sensor shapes",
}
ASSUMPTIONS = ["raw files hold whole numbers up to 65535, so results are compared with the truth within the quantisation they cause; routes are compared with each other to 1e-9",
               "with binning the response of the sensor is constant within a binned block"]
TIME_LIMIT = 400.0
ANG = [0, 45, 90, -45, 20, 110]
S0 = 40000.0
RESP = list(itertools.product((0.45, 0.6, 0.8), (0.55, 0.8, 0.97), (-9.0, 0.0, 6.0)))


def scenarios(tier, seed):
    q = tier == "quick"
    for k in range(24):
        for dark, flat in ((False, False), (True, False), (True, True)):
            for b in (1, 2) if q else (1, 2, 3):
                for n in ((1, 3)[(k + b + seed) % 2],) if q else (1, 2, 3, 4):
                    yield dict(k=k, dark=dark, flat=flat, b=b, n=n, grid=[1, 1] if q or n != 2 else [2, 1], shape=[8 * b, 12 * b] if (k + b) % 2 or q else [12 * b, 8 * b])


def raw(path, a):
    a = np.asarray(a)
    assert a.min() >= 0 and a.max() < 65536, (a.min(), a.max())
    Path(path).write_bytes(np.round(a).astype("<u2").tobytes())
    return str(path)


def near(ctx, got, want, what, tol):
    ctx.check(got.shape == want.shape, f"{what}: shape {got.shape}, expected {want.shape}")
    ctx.check(bool(np.isfinite(got).all()), f"{what}: not finite")
    e = np.abs(got - want).max() / np.abs(want).max()
    ctx.check(bool(e <= tol), f"{what}: off by {e:.2e} of the signal (allowed {tol:.0e})")


def run(s, ctx):
    old = calib.COMBOS
    calib.COMBOS = RESP
    try:
        go(s, ctx)
    finally:
        calib.COMBOS = old
        ml.set_default_angles(None)
    ctx.trace()


def go(s, ctx):
    (h, w), b, n = s["shape"], s["b"], s["n"]
    dic = ref.dic_of(s["k"])
    phases = [None] * 4
    for a, p in dic.items():
        phases[p] = a
    d = ctx.scratch / "chain"
    calib.fresh(str(d))
    os.makedirs(d / "out")
    sen = calib.Sensor(h, w, phases, salt=s["k"], block=b)
    yy, xx = np.mgrid[0:h, 0:w]
    dark = np.round(300.0 + (yy * 7 + xx * 3) % 40) if s["dark"] else np.zeros((h, w))
    gainmap = 1.0 + (0.2 if s["flat"] else 0.0) * np.sin(yy // (2 * b) + 2.0 * (xx // (2 * b)))
    gainmap = gainmap / gainmap.mean()
    what = f"{h}x{w} sensor with orientations {phases}, dark {s['dark']}, flat {s['flat']}, binning {b}, {n} exposures"

    def convert(name, a):
        p = raw(d / f"{name}.raw", a)
        ml.convert_rawfile_to_fits(p, h, w)
        return str(d / f"{name}.fits")

    # calibration, from raw files
    files = [convert(f"c{k}", gainmap * sen.frame(S0, a) + dark) for k, a in enumerate(ANG)]
    darkf = convert("dark", dark) if s["dark"] else None
    flatf = convert("flat", gainmap * 20000 + dark) if s["flat"] else None
    if s["flat"]:
        fl = ml.MicropolImage(flatf, angle_dic=dict(dic))
        fl.subtract_dark(ml.MicropolImage(darkf, angle_dic=dict(dic)))
        fl.save_as_fits(str(d / "flat0.fits"))
        flatf = str(d / "flat0.fits")
    ml.calculate_demodulation_tensor(list(ANG), list(files), list(phases), 2.75, str(d / "cal"), binning=b, procs_grid=list(s["grid"]), dark_filename=darkf, flat_filename=flatf, normalizing_S=S0)
    dem = ml.Demodulator(str(d / "cal"))

    # light: smooth, varying over the field, strongly polarised
    hs, ws = h // 2, w // 2
    y, x = np.mgrid[0:hs, 0:ws]
    I = 38000.0 + 300.0 * np.sin(y + 0.5 * x)
    th = 0.3 * y + 0.7 * x
    pol = 0.25 + 0.5 * ((y + x) % 3) / 2
    L = (I, I * pol * np.cos(2 * th), I * pol * np.sin(2 * th))
    steps = {1: [1.0], 2: [0.8, 1.2], 3: [0.7, 1.0, 1.3], 4: [0.9, 1.1, 0.7, 1.3]}[n]
    raws = [raw(d / f"s{k}.raw", gainmap * sen.light(*L) * f + dark) for k, f in enumerate(steps)]
    for r in raws:
        ml.convert_rawfile_to_fits(r, h, w)
    fitss = [r[:-4] + ".fits" for r in raws]
    order = fitss[::-1]
    truth = np.array([ref.rebin(c, b) for c in L])
    ml.set_default_angles(dict(dic))
    darkim = ml.MicropolImage(darkf) if darkf else None
    flatim = ml.MicropolImage(flatf) if flatf else None
    keep = {k: v.data.tobytes() for k, v in (("dark", darkim), ("flat", flatim)) if v is not None}

    def load_each():
        return [ml.MicropolImage(f) for f in order]

    def total(ims):
        r = ims[0]
        for i in ims[1:]:
            r = r + i
        return r / len(ims)

    def merged(mode, f):
        p = str(d / "merged.fits")
        ml.merge_rawfiles_to_fits(list(raws), p, h, w, mode=mode) if mode != "avg" else ml.average_rawfiles_to_fits(list(raws), p, h, w)
        return f(ml.MicropolImage(p))

    combine = {
        "average of raw files": lambda: merged("average", lambda i: i),
        "averaging function": lambda: merged("avg", lambda i: i),
        "sum of raw files, divided": lambda: merged("sum", lambda i: i / n),
        "mean of files": lambda: ml.MicropolImage(list(order)),
        "sum of files, divided": lambda: ml.MicropolImage(list(order), averageimages=False) / n,
        "added images": lambda: total(load_each()),
    }
    if s["dark"]:
        nodark = {
            "subtracted": lambda make: sub(make()),
            "operator": lambda make: make() - darkim,
            "array": lambda make: make() - darkim.data,
            "at copying": lambda make: ml.MicropolImage(make(), dark=darkim),
            "at reading each": lambda make: total([ml.MicropolImage(f, dark=darkim) for f in order]),
        }
    else:
        nodark = {"none": lambda make: make()}

    def sub(im):
        im.subtract_dark(darkim)
        return im

    def flatten(im):
        im.correct_flat(flatim)
        return im

    flats = {"corrected": flatten, "at copying": lambda im: ml.MicropolImage(im, flat=flatim)} if s["flat"] else {"none": lambda im: im}

    def stored(im):
        im.save_as_fits(str(d / "out" / "frame.fits"))
        return ml.MicropolImage(str(d / "out" / "frame.fits"))

    kept = {"directly": lambda im: im, "saved and loaded": stored, "copied": lambda im: ml.MicropolImage(im)}

    def maps(im):
        return np.array(im.Stokes_vec)

    def params(im):
        im.save_all_pol_params_as_fits(str(d / "out" / "m.fits"))
        r = []
        for c in "IQU":
            f = [p for p in os.listdir(d / "out") if p.startswith("m_" + c + ".") or p == f"m_{c}.fits"]
            ctx.check(len(f) == 1, f"{what}: files of {c}: {sorted(os.listdir(d / 'out'))}")
            r.append(fitsio.read(d / "out" / f[0])[1])
        return np.array(r, float)

    def single(im):
        r = []
        for c in "IQU":
            im.save_param_as_fits(c, str(d / "out" / f"one_{c}.fits"))
            f = [p for p in os.listdir(d / "out") if p.startswith("one_" + c)]
            r.append(fitsio.read(d / "out" / f[0])[1])
            os.remove(d / "out" / f[0])
        return np.array(r, float)

    reads = {"maps": maps, "saved maps": params, "saved parameters": single}
    first = {}
    for (c, fc), (dk, fd), (f, ff), (kp, fk), demo in itertools.product(combine.items(), nodark.items(), flats.items(), kept.items(), (False, True)):
        im = fk(ff(fd(fc)))
        if b > 1:
            im = im.rebin(b)
        before = im.data.tobytes()
        out = im.demodulate(dem, demosaicing=demo)
        ctx.check(im.data.tobytes() == before, f"{what}: demodulating changed the frame")
        route = f"{what}: {c}, dark {dk}, flat {f}, {kp}{', demosaiced' if demo else ''}"
        for r, fr in reads.items():
            if r != "maps" and (c, dk) not in (("mean of files", "subtracted"), ("mean of files", "none"), ("average of raw files", "operator")):
                continue
            S = fr(out)
            if not demo:
                if s["flat"]:       # the calibration leaves one overall factor open when a flat is given
                    k = float(np.median(S[0] / truth[0]))
                    ctx.check(0.3 < k < 3, f"{route}: overall factor {k}")
                    S = S / k
                near(ctx, S, truth, f"{route}, {r}: Stokes vector", 2e-3)
                a = out.AoLP.data
                t = 0.5 * np.arctan2(truth[2], truth[1])
                da = np.abs((a - t + np.pi / 2) % np.pi - np.pi / 2)
                ctx.check(bool(da.max() < 5e-3), lambda: f"{route}: angle of polarisation off by {np.rad2deg(da.max()):.2f} degrees")
                near(ctx, out.DoLP.data, np.hypot(truth[1], truth[2]) / truth[0], f"{route}: degree of polarisation", 5e-3)
            ctx.check(S.shape == ((3, h // b, w // b) if demo else truth.shape), f"{route}: shape {S.shape}")
            S = fr(out) if s["flat"] and not demo else S
            if demo not in first:
                first[demo] = S
            near(ctx, S, first[demo], f"{route}, {r}: not as by the first route", 1e-9)
            ctx.step()
            ctx.state(s["k"], s["dark"], s["flat"], b, n, c, dk, f, kp, demo, r)
        ctx.outcome(np.round(out.Stokes_vec, -2))
    for k, v in (("dark", darkim), ("flat", flatim)):
        ctx.check(v is None or v.data.tobytes() == keep[k], f"{what}: the {k} was changed")
