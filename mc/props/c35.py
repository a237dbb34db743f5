"""Exhaustive enumeration of orientation permutations x phase offsets x representations through the real calibration loader."""
import itertools
import os

import numpy as np
import micropolarray as ml
from mc import calib, fitsio, ref
from mc.props import c16

BOUNDS = {
    "quick": "all 24 permutations x all offset combinations in {-15, -4, 8, 15}^4 degrees x 90 and -90; all 24 permutations x 16 combinations of the four orientations written "
             "modulo 180 x 9 offset tuples; phase maps varying over the frame, in 6 shapes and 3 pixel types; every superpixel x position of 3 shapes off by 60 degrees in both directions; 24 real calibrations with either representation of the "
             "predictions, occulter included",
    "thorough": "offsets {-15, -11, -7, -3, 0, 3, 7, 11, 15}^4, all representations",
}
ANG = [0, 45, -45, 90]
PERMS = list(itertools.permutations(range(4)))  # position of each of ANG
TIME_LIMIT = 900.0


def scenarios(tier, seed):
    q = tier == "quick"
    for p in range(24):
        for neg in (False, True):
            yield dict(t="offsets", p=p, neg=neg, off=[-15, -4, 8, 15] if q else [-15, -11, -7, -3, 0, 3, 7, 11, 15])
    for p in range(24):
        yield dict(t="turns", p=p)
        yield dict(t="maps", p=p, k=seed)
        yield dict(t="real", p=p, k=seed)
        yield dict(t="outlier", p=p)


def run(s, ctx):
    s["perm"] = PERMS[s["p"]]
    globals()["run_" + s["t"]](s, ctx)
    ctx.trace()


def prepared(ctx, h, w, flags=None):
    d = ctx.scratch / "cal"
    c16.folder(d, c16.matrices(h // 2, w // 2, 1), flags)
    return d


def decide(ctx, d, perm, what, dem=None):
    got = (dem or ml.Demodulator(str(d))).angle_dic
    ctx.check(sorted(got) == sorted(ANG), f"{what}: orientations {sorted(got)}")
    want = dict(zip(ANG, perm))
    ctx.check({int(k): int(v) for k, v in got.items()} == want, f"{what}: assignment {dict(got)}, expected {want}")
    ctx.step()


def run_offsets(s, ctx):
    d = prepared(ctx, 2, 2)
    nominal = [0, 45, -45, -90 if s["neg"] else 90]
    for off in itertools.product(s["off"], repeat=4):
        ph = [0.0] * 4
        for k, pos in enumerate(s["perm"]):
            ph[pos] = nominal[k] + float(off[k])
        fitsio.write(f"{d}/phases.fits", np.array(ph).reshape(2, 2))
        decide(ctx, d, s["perm"], f"phases {ph}")
        ctx.state(tuple(ph))


def run_turns(s, ctx):
    d = prepared(ctx, 2, 2)
    for turns in itertools.product((0, 1), repeat=4):
        for n, off in enumerate([(0, 0, 0, 0), (15, 15, 15, 15), (-15, -15, -15, -15), (15, -15, 15, -15), (-15, 15, -15, 15), (0, 0, 0, 1), (0, 0, 0, -1), (14, -14, -14, 14), (3, 5, 7, 9)]):
            ph = [0.0] * 4
            for k, pos in enumerate(s["perm"]):
                ph[pos] = ANG[k] + off[k] + 180.0 * turns[k] * (-1 if ANG[k] > 0 else 1)
            fitsio.write(f"{d}/phases.fits", np.array(ph).reshape(2, 2))
            decide(ctx, d, s["perm"], f"phases {ph}")
            ctx.state(tuple(ph))


def run_maps(s, ctx):
    for h, w in [(2, 4), (4, 2), (4, 6), (6, 4), (8, 8), (2, 10)]:
        d = prepared(ctx, h, w, np.zeros((h // 2, w // 2)))
        for dt in ("f8", "f4", "i2"):
            for neg in (False, True):
                fam = [None] * 4
                for k, pos in enumerate(s["perm"]):
                    v = np.floor(ref.code(h // 2, w // 2, salt=s["k"] + k)) % 19 - 9.0
                    v += np.round(12.0 * (-1) ** (k + neg) - v.mean())
                    fam[pos] = v + (ANG[k] if not (neg and k == 3) else -90)
                fitsio.write(f"{d}/phases.fits", ref.merge(np.array(fam)).astype(dt))
                what = f"phase maps {h}x{w} {dt}, permutation {s['perm']}, 90 as {'-90' if neg else '90'}"
                dem = ml.Demodulator(str(d))
                decide(ctx, d, s["perm"], what, dem)
                decide(ctx, d, s["perm"], what + " again", dem)
                img = ref.code(h, w, salt=7)
                S = ml.MicropolImage(img, angle_dic=dem.angle_dic).demodulate(dem).Stokes_vec
                ctx.same(S, ref.stokes(ref.split(img), dict(zip(ANG, s["perm"]))), f"{what}: theoretical Stokes vector of unfitted superpixels")
                ctx.state(what)


def run_outlier(s, ctx):
    """One superpixel of the frame, each in turn, is far from the others in one position: it does not decide the assignment."""
    for h, w in [(4, 4), (6, 4), (2, 10)]:
        d = prepared(ctx, h, w, np.zeros((h // 2, w // 2)))
        n = h * w // 4
        for at in range(n):
            for k, pos in enumerate(s["perm"]):
                for off in (-60.0, 60.0):
                    fam = np.zeros((4, h // 2, w // 2))
                    for j, q in enumerate(s["perm"]):
                        fam[q] = ANG[j] + (2.0 if j % 2 else -3.0)
                    fam[pos].flat[at] += off
                    fitsio.write(f"{d}/phases.fits", ref.merge(fam))
                    decide(ctx, d, s["perm"], f"phases {h}x{w}, permutation {s['perm']}, position {pos} of superpixel {at} off by {off}")
                    ctx.state(h, w, at, pos, off, s["p"])


def run_real(s, ctx):
    h, w = 6, 8
    for neg, occ in ((False, None), (True, None), (True, [2, 4, 4])):
        ph = [0.0] * 4
        for k, pos in enumerate(s["perm"]):
            ph[pos] = ANG[k] if not (neg and k == 3) else -90
        sen = calib.Sensor(h, w, ph, salt=s["k"])
        files = calib.write_frames(ctx.scratch / "in", [sen.frame(5000.0, a) for a in ANG])
        dem = calib.calibrate(ANG, files, ph, calib.fresh(ctx.scratch / "out"), normalizing_S=5000.0, occulter=occ)
        decide(ctx, None, s["perm"], f"calibration with predictions {ph}, occulter {occ}", dem)
        ctx.state(tuple(ph), str(occ))
