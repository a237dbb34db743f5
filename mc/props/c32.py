"""Exhaustive exploration of occulter positions and radii, of dead pixel positions and of their combinations, on the real calibration."""
import itertools

import numpy as np
import micropolarray as ml
from mc import calib, ref

BOUNDS = {
    "quick": "6x8 sensor: every integer occulter centre inside the frame x radius 0..6 (odd and even); 8x10 sensor: binning 1, 2, 3 with "
             "unbinned occulter coordinates; every single dead pixel, every pair of dead pixels of two superpixels (each of the 4 positions), pixels "
             "dead in all but one frame, every single not finite pixel; occulter and dead pixels together; 2 orientation assignments, dark and flat, process grids; "
             "demodulation of 4 lights with every result",
    "thorough": "also every centre with radius 0..6 on an 8x10 and 0..12 on a 12x12 sensor and half-integer coordinates",
}
ASSUMPTIONS = ["an unusable superpixel's entries in the transmittance and efficiency maps are not specified (the initial guesses)",
               "numbers of superpixels and positions as the library defines them: unbinned occulter values divided by the binning, halved, truncated"]
TIME_LIMIT = 400.0
ANG = [0, 45, 90, -45]


def unusable(h, w, occ, binning=1):
    """The superpixels within the disc."""
    hs, ws = h // 2, w // 2
    if occ is None:
        return np.zeros((hs, ws), bool)
    y, x, r = [int(int(v / binning) / 2) for v in occ]
    yy, xx = np.mgrid[0:hs, 0:ws]
    return (yy - y) ** 2 + (xx - x) ** 2 <= r * r


def scenarios(tier, seed):
    q = tier == "quick"
    for y in range(0, 6):
        for x in range(0, 8):
            yield dict(t="occ", h=6, w=8, y=y, x=x, rs=[0, 1, 2, 3, 4, 6], k=(x + y) % 2)
    for b in (2, 3):
        for y in range(0, 8 * b, 4):
            yield dict(t="binned", b=b, y=y)
    for py in range(0, 8):
        yield dict(t="dead", y=py)
    for a in range(4):
        for b in range(4):
            yield dict(t="dead2", a=a, b=b)
    for b in (1, 2):
        yield dict(t="both", b=b)
    yield dict(t="grid")
    yield dict(t="saturated")
    for y in range(6):
        yield dict(t="nonfinite", y=y)
    if not q:
        for y in range(0, 8):
            for x in range(0, 10):
                yield dict(t="occ", h=8, w=10, y=y, x=x, rs=list(range(0, 7)), k=(x + y) % 2)
        for y in range(0, 12):
            for x in range(0, 12):
                yield dict(t="occ", h=12, w=12, y=y, x=x, rs=[0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12], k=(x + y) % 2)
        for y in range(0, 16):
            yield dict(t="occ", h=8, w=10, y=y / 2, x=y % 7 + 0.5, rs=[1.5, 2.5, 3.0, 4.5], k=0)


_base = {}


def base(h, w, ph, ctx, salt=0):
    """Sensor, frames and the calibration without anything unusable."""
    key = (h, w, tuple(ph), salt)
    if key not in _base:
        sen = calib.Sensor(h, w, ph, salt=salt)
        frames = [sen.frame(5000.0, a) for a in ANG]
        files = calib.write_frames(ctx.scratch / "base", frames)
        out = calib.fresh(ctx.scratch / "baseout")
        d = calib.calibrate(ANG, files, ph, out, normalizing_S=5000.0)
        _base[key] = (sen, frames, np.array(d.mij), np.array(d.fit_found_flags), np.array(d.tk), np.array(d.eff), np.array(d.phi))
        calib.fresh(out)
    return _base[key]


def judge(ctx, d, bad, b, ph, what):
    """bad: unusable superpixels; b: (matrices, flags, tk, eff, phi) without any."""
    M, F, tk, eff, phi = b
    theo = calib.theoretical(ph)
    want = np.where(bad, theo[:, :, None, None], M)
    scale = np.abs(M).max(axis=(0, 1))
    ctx.same(d.mij / scale, want / scale, f"{what}: matrices", atol=1e-6)
    ctx.exact(np.asarray(d.fit_found_flags), np.where(bad, 0.0, F), f"{what}: fit flags")
    bp = bad.repeat(2, 0).repeat(2, 1)
    for nm, got, w, tol in (("transmittances", d.tk, tk, 1e-6), ("efficiencies", d.eff, eff, 1e-6), ("phases", d.phi, phi, 1e-4)):
        ctx.same(np.where(bp, w, got), w, f"{what}: {nm} of the usable superpixels", atol=tol)
    p4 = ref.merge([np.full(bad.shape, float(v)) for v in ph])
    ctx.same(np.where(bp, d.phi, p4), p4, f"{what}: phases of the unusable superpixels", atol=1e-4)
    # demodulation of any light
    h, w = 2 * bad.shape[0], 2 * bad.shape[1]
    dic = dict(zip([90 if v == -90 else v for v in ph], range(4)))
    for k in range(2):
        img = ref.code(h, w, salt=k)
        im = ml.MicropolImage(img, angle_dic=dic)
        S = np.array(im.demodulate(d).Stokes_vec)
        st = ref.stokes(ref.split(img), dic)
        full = np.einsum("ijyx,jyx->iyx", np.asarray(d.mij), ref.split(img))
        ctx.same(S, np.where(bad, st, full), f"{what}: demodulated light", rtol=1e-7)
    ctx.step()
    ctx.state(what)
    ctx.outcome(bad)


def run(s, ctx):
    globals()["run_" + s["t"]](s, ctx)
    ctx.trace()


PH = ([0, 45, -45, 90], [90, -45, 0, 45])


def run_occ(s, ctx):
    h, w, ph = s["h"], s["w"], PH[s["k"]]
    sen, frames, *b = base(h, w, ph, ctx)
    files = calib.write_frames(ctx.scratch / "in", frames)
    for r in s["rs"]:
        occ = [s["y"], s["x"], r]
        d = calib.calibrate(ANG, files, ph, calib.fresh(ctx.scratch / "out"), normalizing_S=5000.0, occulter=occ)
        ctx.check(occ == [s["y"], s["x"], r], "the occulter list is changed")
        judge(ctx, d, unusable(h, w, occ), b, ph, f"{h}x{w}, occulter {occ}, orientations {ph}")


def run_binned(s, ctx):
    b, ph = s["b"], PH[1]
    h, w = 8 * b, 10 * b
    key = ("binned", b)
    if key not in _base:
        sen = calib.Sensor(h, w, ph, salt=1, block=b)
        frames = [sen.frame(5000.0, a) for a in ANG]
        files = calib.write_frames(ctx.scratch / "base", frames)
        d = calib.calibrate(ANG, files, ph, calib.fresh(ctx.scratch / "baseout"), normalizing_S=5000.0, binning=b)
        _base[key] = (frames, np.array(d.mij), np.array(d.fit_found_flags), np.array(d.tk), np.array(d.eff), np.array(d.phi))
    frames, *bb = _base[key]
    files = calib.write_frames(ctx.scratch / "in", frames)
    for x in range(0, 10 * b, 5):
        for r in (0, 1, 2 * b - 1, 2 * b, 2 * b + 1, 3 * b, 4 * b, 4 * b + 1, 6 * b - 1):
            occ = [s["y"], x, r]
            d = calib.calibrate(ANG, files, ph, calib.fresh(ctx.scratch / "out"), normalizing_S=5000.0, binning=b, occulter=occ)
            judge(ctx, d, unusable(8, 10, occ, b), bb, ph, f"{h}x{w} binned by {b}, occulter {occ}")


def kill(frames, pts, but=None):
    fr = [f.copy() for f in frames]
    for n, f in enumerate(fr):
        for y, x in pts:
            if but != n:
                f[y, x] = 0.0
    return fr


def run_dead(s, ctx):
    ph = PH[0]
    sen, frames, *b = base(8, 10, ph, ctx)
    for x in range(10):
        files = calib.write_frames(ctx.scratch / "in", kill(frames, [(s["y"], x)]))
        d = calib.calibrate(ANG, files, ph, calib.fresh(ctx.scratch / "out"), normalizing_S=5000.0)
        bad = np.zeros((4, 5), bool)
        bad[s["y"] // 2, x // 2] = True
        judge(ctx, d, bad, b, ph, f"dead pixel at ({s['y']}, {x})")


def run_dead2(s, ctx):
    """Dead pixels in neighbouring superpixels and several in the same."""
    ph = PH[1]
    sen, frames, *b = base(8, 10, ph, ctx)
    ya, xa, yb, xb = s["a"] // 2, s["a"] % 2, s["b"] // 2, s["b"] % 2
    for (p, q) in itertools.combinations([(0, 0), (0, 1), (1, 0), (3, 4), (2, 2), (0, 4)], 2):
        pts = [(2 * p[0] + ya, 2 * p[1] + xa), (2 * q[0] + yb, 2 * q[1] + xb)]
        if s["a"] != s["b"]:
            pts.append((2 * p[0] + yb, 2 * p[1] + xb))
        bad = np.zeros((4, 5), bool)
        bad[p] = bad[q] = True
        files = calib.write_frames(ctx.scratch / "in", kill(frames, pts))
        d = calib.calibrate(ANG, files, ph, calib.fresh(ctx.scratch / "out"), normalizing_S=5000.0)
        judge(ctx, d, bad, b, ph, f"dead pixels at {pts}")


def run_both(s, ctx):
    ph = PH[0]
    sen, frames, *b = base(8, 10, ph, ctx)
    dk = np.floor(ref.code(8, 10, salt=4) / 20)
    for occ in ([2, 2, 2], [7, 9, 5], [4, 5, 3]):
        for pts in ([(0, 9)], [(7, 0), (3, 4)], [(2, 3), (6, 6)]):
            bad = unusable(8, 10, occ)
            for y, x in pts:
                bad[y // 2, x // 2] = True
            fr = kill(frames, pts)
            kw = {}
            if s["b"] == 2:  # zero once the dark is subtracted
                fr = [f + dk for f in fr]
                calib.write(f"{ctx.scratch}/dark.fits", dk)
                kw["dark_filename"] = f"{ctx.scratch}/dark.fits"
            files = calib.write_frames(ctx.scratch / "in", fr)
            d = calib.calibrate(ANG, files, ph, calib.fresh(ctx.scratch / "out"), normalizing_S=5000.0, occulter=occ, **kw)
            judge(ctx, d, bad, b, ph, f"occulter {occ}, dead pixels {pts}, dark {s['b'] == 2}")
            # listing order and all light states do not matter
            d = calib.calibrate(ANG[::-1], files[::-1], ph, calib.fresh(ctx.scratch / "out"), normalizing_S=5000.0, occulter=tuple(occ), **kw)
            judge(ctx, d, bad, b, ph, f"occulter {occ}, dead pixels {pts}, dark {s['b'] == 2}, reversed listing")


def run_grid(s, ctx):
    from mc.props.c14 import Schedule, scheduled
    ph = PH[0]
    sen, frames, *b = base(8, 12, ph, ctx)
    for occ in ([2, 2, 2], [7, 11, 5], [4, 6, 3]):
        for pts in ([(0, 11)], [(7, 0), (3, 4)]):
            for grid in ([2, 2], [4, 1], [1, 3], [2, 3]):
                bad = unusable(8, 12, occ)
                for y, x in pts:
                    bad[y // 2, x // 2] = True
                files = calib.write_frames(ctx.scratch / "in", kill(frames, pts))
                with scheduled(Schedule()):
                    d = calib.calibrate(ANG, files, ph, calib.fresh(ctx.scratch / "out"), normalizing_S=5000.0, occulter=occ, procs_grid=grid)
                judge(ctx, d, bad, b, ph, f"occulter {occ}, dead pixels {pts}, process grid {grid}")


def run_saturated(s, ctx):
    """A pixel that is zero in all frames but one is not dead: its neighbours keep their own calibration."""
    ph = PH[0]
    sen, frames, *b = base(8, 10, ph, ctx)
    M, F, tk, eff, phi = b
    for but in range(4):
        files = calib.write_frames(ctx.scratch / "in", kill(frames, [(3, 6)], but=but))
        d = calib.calibrate(ANG, files, ph, calib.fresh(ctx.scratch / "out"), normalizing_S=5000.0)
        sel = np.ones((4, 5), bool)
        sel[1, 3] = False
        ctx.same(np.where(sel, d.mij, 0), np.where(sel, M, 0), f"pixel zero in all frames but {but}: other superpixels", rtol=1e-6)
        ctx.exact(np.where(sel, d.fit_found_flags, 1), F, f"pixel zero in all frames but {but}: other flags")
        ctx.step()
        ctx.state("sat", but)


def run_nonfinite(s, ctx):
    """A pixel which is not finite in one frame, and a dead one elsewhere."""
    ph = PH[1]
    sen, frames, *b = base(6, 8, ph, ctx)
    for x in range(8):
        fr = [f.copy() for f in frames]
        n = (s["y"] + x) % 4
        fr[n][s["y"], x] = (np.nan, np.inf)[(s["y"] + x // 2) % 2]
        bad = np.zeros((3, 4), bool)
        bad[s["y"] // 2, x // 2] = True
        if x % 3 == 0:
            fr = kill(fr, [(5 - s["y"], 7 - x)])
            bad[(5 - s["y"]) // 2, (7 - x) // 2] = True
        files = calib.write_frames(ctx.scratch / "in", fr)
        d = calib.calibrate(ANG, files, ph, calib.fresh(ctx.scratch / "out"), normalizing_S=5000.0)
        judge(ctx, d, bad, b, ph, f"pixel ({s['y']}, {x}) of frame {n} not finite" + (", dead pixel opposite" if x % 3 == 0 else ""))
