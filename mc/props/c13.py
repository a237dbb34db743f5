"""Closed-loop exploration: every combination of sensor response, orientation assignment, frame order, dark, flat, binning and normalisation
form, generated from Malus' law, goes through the real calibration and must come back."""
import itertools

import numpy as np
import micropolarray as ml
from mc import calib, ref

BOUNDS = {
    "quick": "80 responses (4 transmittances x 4 efficiencies x 5 phase offsets) mixed differently in 80 superpixels, x 5 sets of polarizer angles "
             "(4 to 12 frames); all 24 orientation assignments x 2 angle sets; extremes of the allowed ranges; all 24 + 120 listing orders of 4 and 5 frames "
             "x 3 normalisation forms; {no dark, dark} x {no flat, flat} x 3 normalisation forms x binning 1..3 x {float, integer} frames; given "
             "parameter ranges; 6 light states demodulated with each result",
    "thorough": "as quick with all 24 assignments x 5 angle sets, the 720 orders of 6 frames, binning 1..5",
}
ASSUMPTIONS = ["the maximum signal is given (its automatic estimate is a statistical one, see C36)",
               "superpixels whose true matrix has an element of 80 or more are left open (the library deliberately refuses elements above 100)",
               "binning: the response is constant within each binned block"]
SETS = [[0, 45, 90, -45], [0, 45, 90, 135, 20], [0, 30, 60, 90, 120, 150], [0, 15, 30, 45, 60, 75, 90, 105, 120, 135, 150, 165],
        [90, 0, -45, 45, -22.5, 67.5, 45.0]]
LIGHTS = [(1000.0, 0.0, 0.0), (1000.0, 600.0, 0.0), (1000.0, 0.0, -700.0), (50.0, -20.0, 30.0)]
TIME_LIMIT = 400.0


def scenarios(tier, seed):
    q = tier == "quick"
    perms = [list(p) for p in itertools.permutations([0, 45, -45, 90])]
    for si in range(len(SETS)):
        yield dict(t="loop", h=20, w=16, phases=perms[(5 * si + seed) % 24], angles=SETS[si], S=5000.0, salt=seed)
    for k, p in enumerate(perms):
        for si in range(2) if q else range(5):
            yield dict(t="loop", h=4, w=6, phases=[-90 if (v == 90 and k % 3 == 0) else v for v in p], angles=SETS[(si * 2 + k) % 5], S=3000, salt=7 * k)
    yield dict(t="edge", phases=[0, 45, -45, 90], angles=SETS[0])
    yield dict(t="edge", phases=[90, -45, 45, 0], angles=SETS[2])
    for n, form in itertools.product((4, 5) if q else (4, 5, 6), ("number", "image", "series")):
        orders = list(itertools.permutations(range(n)))
        for lo in range(0, len(orders), 12):
            yield dict(t="orders", n=n, form=form, lo=lo, hi=lo + 12)
    for dup in ("number", "series"):
        yield dict(t="dup", form=dup)
    for binning in (1, 2, 3) if q else (1, 2, 3, 4, 5):
        for dark in (False, True):
            for flat in (False, True):
                for form in ("number", "image", "series"):
                    for ints in (False, True):
                        yield dict(t="corr", binning=binning, dark=dark, flat=flat, form=form, ints=ints)
    for tb, eb in (([0.3, 0.05, 0.999], None), (None, [0.9, 0.01, 1.0]), ([0.8, 0.1, 1.0], [0.4, 0.1, 0.999])):
        yield dict(t="ranges", tb=tb, eb=eb)
    yield dict(t="pool")
    yield dict(t="again")


def response(ctx, d, s, what, tol=1.0, factor=False, matrices=None):
    """The calibration d has the response of sensor s (up to one transmittance factor)."""
    M = s.matrices() if matrices is None else matrices
    open_ = np.abs(M).max(axis=(0, 1)) >= 80
    opix = open_.repeat(2, axis=0).repeat(2, axis=1)
    k = 1.0
    ctx.check(d.mij.shape == M.shape, f"{what}: matrices have shape {d.mij.shape}, expected {M.shape}")
    tk = np.asarray(d.tk, float)
    ctx.check(tk.shape == s.t.shape, f"{what}: transmittances have shape {tk.shape}")
    if factor:
        k = float(np.median(tk[~opix] / s.t[~opix]))
        ctx.check(0.2 < k < 5, f"{what}: transmittance factor {k}")
    fix = lambda a, b: np.where(opix, b, a)
    ctx.same(fix(tk, s.t * k), s.t * k, f"{what}: transmittances", atol=1e-5 * tol)
    ctx.same(fix(d.eff, s.e), s.e, f"{what}: efficiencies", atol=1e-5 * tol)
    ctx.same(fix(d.phi, s.phi), s.phi, f"{what}: phases", atol=1e-3 * tol)
    ctx.check(d.fit_found_flags is not None and np.shape(d.fit_found_flags) == M.shape[2:], f"{what}: fit flags")
    ctx.check(bool((np.asarray(d.fit_found_flags)[~open_] == 1).all()), f"{what}: a superpixel is flagged as not fitted")
    scale = np.abs(M).max(axis=(0, 1))
    g = np.where(open_, 0, np.asarray(d.mij, float) * k / scale)
    ctx.same(g, np.where(open_, 0, M / scale), f"{what}: matrices", atol=1e-5 * tol)
    return k, open_


def demodulates(ctx, d, s, k, open_, what, phases, tol=1.0):
    h, w = s.t.shape[0] // 2, s.t.shape[1] // 2
    g = ref.code(h, w, salt=5)
    lights = [tuple(np.full((h, w), v) for v in L) for L in LIGHTS] + [(g, 0.3 * g - 100, 200 - 0.2 * g)]
    dic = dict(zip([90 if v == -90 else v for v in phases], range(4)))
    for n, L in enumerate(lights):
        im = ml.MicropolImage(s.light(*L), angle_dic=dic)
        S = np.array(im.demodulate(d).Stokes_vec) * k
        want = np.array(L)
        # the weakest usable response amplifies the rounding of the fit
        ctx.same(np.where(open_, want, S), want, f"{what}: Stokes vector of light {n}", atol=3e-4 * tol * np.abs(want).max())


def run(s, ctx):
    globals()["run_" + s["t"]](s, ctx)
    ctx.trace()


def done(ctx, s, d):
    ctx.step()
    ctx.state({k: v for k, v in s.items()}, np.round(np.asarray(d.mij, float), 3))
    ctx.outcome(np.round(np.asarray(d.mij, float), 3))


def run_loop(s, ctx):
    sen = calib.Sensor(s["h"], s["w"], s["phases"], salt=s["salt"])
    files = calib.write_frames(ctx.scratch / "in", [sen.frame(s["S"], a) for a in s["angles"]])
    ang, fil, ph = list(s["angles"]), list(files), list(s["phases"])
    out = calib.fresh(ctx.scratch / "out" / "deep")
    what = f"{s['h']}x{s['w']} sensor with orientations {s['phases']}, polarizer {s['angles']}"
    ml.calculate_demodulation_tensor(ang, fil, ph, 2.75, out, procs_grid=[1, 1], normalizing_S=s["S"])
    ctx.check((ang, fil, ph) == (s["angles"], files, s["phases"]), f"{what}: the caller's lists are changed")
    d = ml.Demodulator(out)
    k, o = response(ctx, d, sen, what)
    demodulates(ctx, d, sen, k, o, what, s["phases"])
    calib.fresh(out)
    done(ctx, s, d)


def run_edge(s, ctx):
    old = calib.COMBOS
    calib.COMBOS = list(itertools.product((0.101, 0.5, 0.999), (0.101, 0.5, 0.999), (-14.9, -14.0, 0.0, 14.9)))
    try:
        sen = calib.Sensor(12, 12, s["phases"])
    finally:
        calib.COMBOS = old
    files = calib.write_frames(ctx.scratch / "in", [sen.frame(8000.0, a) for a in s["angles"]])
    d = calib.calibrate(s["angles"], files, s["phases"], calib.fresh(ctx.scratch / "out"), normalizing_S=8000.0)
    k, o = response(ctx, d, sen, "extreme responses", tol=100.0)
    done(ctx, s, d)


def norm(form, h, w, n, base=4000.0):
    """(argument, maximum signal of every frame)"""
    img = base + ref.code(h, w) / 2
    if form == "number":
        return base, [np.full((h, w), base)] * n
    if form == "image":
        return img, [img] * n
    ser = np.array([img * (1 + 0.3 * i) + 100 * ref.code(h, w, salt=i) / 2500 for i in range(n)])
    return ser, list(ser)


def run_orders(s, ctx):
    n = s["n"]
    angles = {4: [0, 45, 90, -45], 5: [0, 45, 90, 135, 20], 6: [0, 30, 60, 90, 120, 150]}[n]
    ph = [45, 90, 0, -45]
    sen = calib.Sensor(2, 4, ph, salt=11)
    arg, S = norm(s["form"], 2, 4, n)
    files = calib.write_frames(ctx.scratch / "in", [sen.frame(S[i], a) for i, a in enumerate(angles)])
    for p in list(itertools.permutations(range(n)))[s["lo"]:s["hi"]]:
        a = arg[list(p)] if s["form"] == "series" else (arg.copy() if isinstance(arg, np.ndarray) else arg)
        keep = np.array(a)
        d = calib.calibrate([angles[i] for i in p], [files[i] for i in p], ph, calib.fresh(ctx.scratch / "out"), normalizing_S=a)
        what = f"{n} frames listed in order {p}, maximum signal as {s['form']}"
        response(ctx, d, sen, what)
        ctx.exact(a, keep, f"{what}: the caller's maximum signal")
        ctx.step()
        ctx.state(p, s["form"])


def run_dup(s, ctx):
    """The same polarizer angle in several frames (of different maximum signal)."""
    angles = [45, 0, 0, 90, -45, 45, 0]
    ph = [0, 45, -45, 90]
    sen = calib.Sensor(2, 4, ph, salt=3)
    arg, S = norm(s["form"], 2, 4, len(angles))
    files = calib.write_frames(ctx.scratch / "in", [sen.frame(S[i], a) for i, a in enumerate(angles)])
    for lo in range(7):
        p = list(range(lo, 7)) + list(range(lo))
        a = arg[p] if s["form"] == "series" else arg
        d = calib.calibrate([angles[i] for i in p], [files[i] for i in p], ph, calib.fresh(ctx.scratch / "out"), normalizing_S=a)
        response(ctx, d, sen, f"repeated angles, rotated listing {lo}, maximum signal as {s['form']}")
        ctx.step()
        ctx.state("dup", s["form"], lo)


def run_corr(s, ctx):
    b = s["binning"]
    h, w = (4 * b + (2 if b > 1 else 0), 6 * b)  # not divisible: trimmed
    angles = [0, 45, 90, -45, 15]
    ph = [90, 45, -45, 0]
    sen = calib.Sensor(h, w, ph, salt=b, block=b)
    arg, S = norm(s["form"], h, w, 5, base=4000.0 if not s["ints"] else 4.0e7)
    frames = [sen.frame(S[i], a) for i, a in enumerate(angles)]
    kw = {}
    if s["flat"]:
        # constant within the binned blocks, so that the law survives the binning
        hb, wb = (h // 2 + b - 1) // b, (w // 2 + b - 1) // b
        pat = ref.merge([(0.7 + 0.2 * ref.code(hb, wb, salt=q) / 2500).repeat(b, 0).repeat(b, 1)[:h // 2, :w // 2] for q in range(4)])
        frames = [f * pat for f in frames]
        calib.write(f"{ctx.scratch}/flat.fits", 3000.0 * pat)
        kw["flat_filename"] = f"{ctx.scratch}/flat.fits"
    if s["dark"]:
        dk = np.floor(ref.code(h, w, salt=9) / 10)
        frames = [f + dk for f in frames]
        calib.write(f"{ctx.scratch}/dark.fits", dk.astype("i2") if s["ints"] else dk)
        kw["dark_filename"] = f"{ctx.scratch}/dark.fits"
    if s["ints"]:
        frames = [np.round(f).astype("i4") for f in frames]
    files = calib.write_frames(ctx.scratch / "in", frames)
    order = [3, 0, 4, 1, 2]
    a = arg[order] if s["form"] == "series" else arg
    d = calib.calibrate([angles[i] for i in order], [files[i] for i in order], ph, calib.fresh(ctx.scratch / "out"), normalizing_S=a, binning=b, **kw)
    # the binned sensor
    hb, wb = (h // (2 * b)) * 2, (w // (2 * b)) * 2
    pick = lambda m: ref.merge([f[:(hb // 2) * b:b, :(wb // 2) * b:b] for f in ref.split(m)])
    bs = sen.sub(slice(0, hb), slice(0, wb))
    bs.t, bs.e, bs.phi = pick(sen.t), pick(sen.e), pick(sen.phi)
    what = f"binning {b}, dark {s['dark']}, flat {s['flat']}, maximum signal as {s['form']}, {'integer' if s['ints'] else 'float'} frames"
    k, o = response(ctx, d, bs, what, tol=1.0 if not s["ints"] else 5.0, factor=s["flat"])
    # demodulate the binned image of a light of the full sensor
    g = ref.code(h // 2, w // 2, salt=2)
    L = (g, 0.3 * g - 90, 150 - 0.2 * g)
    im = ml.MicropolImage(sen.light(*L), angle_dic=dict(zip(ph, range(4)))).rebin(b)
    St = np.array(im.demodulate(d).Stokes_vec) * k
    want = np.array([ref.rebin(v, b) for v in L])
    ctx.same(np.where(o, want, St), want, f"{what}: Stokes vector of binned light", atol=2e-3 * np.abs(want).max())
    done(ctx, s, d)


def run_ranges(s, ctx):
    ph = [-45, 0, 90, 45]
    sen = calib.Sensor(8, 8, ph, salt=30)
    kw = {}
    if s["tb"]:
        kw["tk_boundary"] = list(s["tb"])
    if s["eb"]:
        kw["eff_boundary"] = list(s["eb"])
    ang = [0, 45, 90, -45, 10]
    files = calib.write_frames(ctx.scratch / "in", [sen.frame(7000.0, a) for a in ang])
    d = calib.calibrate(ang, files, ph, calib.fresh(ctx.scratch / "out"), normalizing_S=7000.0, **kw)
    k, o = response(ctx, d, sen, f"given ranges {kw}")
    done(ctx, s, d)


def run_pool(s, ctx):
    """The default process grid, with real worker processes."""
    ph = [0, 45, -45, 90]
    sen = calib.Sensor(8, 16, ph, salt=40)
    ang = [0, 45, 90, -45]
    files = calib.write_frames(ctx.scratch / "in", [sen.frame(7000.0, a) for a in ang])
    out = calib.fresh(ctx.scratch / "out")
    ml.calculate_demodulation_tensor(ang, files, ph, 2.75, out, normalizing_S=7000.0)
    d = ml.Demodulator(out)
    k, o = response(ctx, d, sen, "default process grid")
    demodulates(ctx, d, sen, k, o, "default process grid", ph)
    done(ctx, s, d)


def run_again(s, ctx):
    """Calibrations one after the other do not influence each other, also in the same folder."""
    ang = [0, 45, 90, -45]
    out = calib.fresh(ctx.scratch / "same")
    ds = []
    for n, ph in enumerate(([0, 45, -45, 90], [90, 0, 45, -45], [0, 45, -45, 90])):
        sen = calib.Sensor(4, 4, ph, salt=10 * n)
        files = calib.write_frames(ctx.scratch / "in", [sen.frame(7000.0, a) for a in ang])
        d = calib.calibrate(ang, files, ph, out, normalizing_S=7000.0)
        k, o = response(ctx, d, sen, f"calibration {n + 1} in the same folder")
        demodulates(ctx, d, sen, k, o, f"calibration {n + 1} in the same folder", ph)
        ds.append((d, sen))
        done(ctx, dict(s, n=n), d)
    for n, (d, sen) in enumerate(ds):
        ctx.same(d.mij, sen.matrices(), f"matrices of calibration {n + 1} already loaded", rtol=1e-5)
