"""Exhaustive enumeration of signal distributions (centre, width, tails, place of the peak, arrangement of the pixels) through the real estimate, and of calibrations which have to use it."""
import itertools

import numpy as np
import micropolarray as ml
from scipy.special import ndtri
from mc import calib, ref
from mc.props import c32

BOUNDS = {
    "quick": "normal distributions: 5 centres and widths x 4 numbers of pixels x 5 pixel arrangements x 24 orders of the frames; grid distributions: the peak in 47 of the 1000 histogram bins "
             "x 5 widths x 3 shares of the pixels at the ends, 5 pixel types; brightness x 6 factors; calibrations: all 24 listing orders, every orientation repeated 1..3 times, extra angles, 135 and -45 degrees, 9 occulters, dark, flat, binning 1..2",
    "thorough": "the peak in every one of the 1000 bins; 120 listing orders of five frames",
}
ASSUMPTIONS = ["noise is represented by smooth distributions (the quantiles of a normal one, counts on a grid); how far single noise realisations throw the fit off is a statistical question and is not decided"]
TIME_LIMIT = 400.0
NORM = [0, 45, 90, -45]


def scenarios(tier, seed):
    q = tier == "quick"
    for m in ((100.0, 1.0), (1000.0, 50.0), (30000.0, 170.0), (2.0, 0.05), (5e6, 2e5)):
        for shape in ((256, 256), (200, 400), (64, 1024), (512, 512)):
            yield dict(t="normal", m=m, shape=shape, k=seed)
    for lo in range(0, 1000, 50):
        yield dict(t="grid", bins=[b for b in range(lo, lo + 50) if not q or b < 16 or b > 980 or b % 100 == 37])
    for p in itertools.permutations(range(4)):
        yield dict(t="orders", n=4, p=list(p))
    if not q:
        for p in itertools.permutations(range(5)):
            yield dict(t="orders", n=5, p=list(p))
    for rep in itertools.product((1, 2, 3), repeat=4):
        if sum(r > 1 for r in rep) <= 1 or rep == (2, 3, 1, 2) or len(set(rep)) == 1:
            yield dict(t="repeat", rep=list(rep))
    for extra in ([20], [135], [30, 60, 120, 150], [-22.5, 135, 67.5], [180], [-90], [225]):
        yield dict(t="extra", extra=extra)
    for o in range(9):
        yield dict(t="occulter", o=o)
    for b, dark, flat in itertools.product((1, 2), (False, True), (False, True)):
        yield dict(t="corr", b=b, dark=dark, flat=flat)
    yield dict(t="refused")


def run(s, ctx):
    globals()["run_" + s["t"]](s, ctx)
    ctx.trace()


def frames_of(S, w=(0.7, 0.4, 0.6, 0.3)):
    """Four frames whose half-sum is S."""
    return np.array([S * v for v in w]) * (2.0 / sum(w))


def run_normal(s, ctx):
    mu, sg = s["m"]
    n = int(np.prod(s["shape"]))
    S = (mu + sg * ndtri((np.arange(n) + 0.5) / n)).reshape(s["shape"])
    first = None
    r = np.random.default_rng(s["k"])
    arr = {"sorted": S, "reversed": S[::-1, ::-1], "strided": S.reshape(-1)[np.arange(n) * 97 % n if n % 97 else np.arange(n)].reshape(S.shape), "columns": np.array(S.reshape(S.shape[::-1]).T), "shuffled": r.permutation(S.reshape(-1)).reshape(S.shape)}
    for name, A in arr.items():
        f = frames_of(A)
        keep = f.copy()
        for p in (itertools.permutations(range(4)) if name == "sorted" else [(0, 1, 2, 3), (3, 1, 0, 2)]):
            got = float(ml.get_malus_normalization(f[list(p)]))
            what = f"{n} pixels, normal distribution {mu} +- {sg}, {name}, frames in order {p}"
            ctx.check(mu <= got <= mu + 4 * sg, f"{what}: {got}, that is {(got - mu) / sg:.2f} standard deviations from the centre")
            first = got if first is None else first
            ctx.check(abs(got - first) <= 1e-3 * sg, f"{what}: {got}, but {first} in the first order")
            ctx.step()
            ctx.state(s["m"], s["shape"], name, p)
        ctx.check((f == keep).all(), f"{n} pixels {name}: the frames are changed")
        for kind in (list, tuple):
            got = float(ml.get_malus_normalization(kind(f)))
            ctx.check(abs(got - first) <= 1e-3 * sg, f"{n} pixels, {mu} +- {sg}, {name}, frames as {kind.__name__}: {got}, expected {first}")
    f = frames_of(S)
    for k in (1e-3, 0.5, 2, 7.0, 1000, 65536.0):
        got = float(ml.get_malus_normalization(f * k)) / k
        ctx.check(abs(got - first) <= 1e-3 * sg, f"{n} pixels, {mu} +- {sg}, brightness x {k}: {got}, expected {first}")
        ctx.step()
        ctx.state(s["m"], s["shape"], "scaled", k)
    ctx.outcome(round((first - mu) / sg, 2))


def grid_signal(b, width, ends, lo=1000.0, step=4.0):
    """Counts on the centres of 1000 bins, in the form of a peak at bin b; the values at both ends define the range."""
    k = np.arange(1000)
    c = np.floor(4000 * np.exp(-((k - b) / width) ** 2 / 2)).astype(int)
    v = np.repeat(lo + (k + 0.5) * step, c)
    e = np.repeat([lo, lo + 1000 * step], ends)
    return np.concatenate([v, e]), lo + (b + 0.5) * step, width * step


def run_grid(s, ctx):
    for b in s["bins"]:
        for width in (2.0, 3.0, 4.0, 6.0, 9.0):
            for ends in ((1, 1), (5, 1), (1, 40)):
                v, mu, sg = grid_signal(b, width, list(ends))
                dt = ("f8", "f4", "u2", ">i4", ">f8")[(b + ends[1] + int(width)) % 5]
                f = frames_of(v.reshape(1, -1), (1, 1, 1, 1))
                typed = f.astype(dt)
                ctx.check((typed == f).all(), "the harness lost precision")
                got = float(ml.get_malus_normalization(typed))
                # next to the ends half of the peak is missing
                slack = 0.5 if b < 2 * width or b > 999 - 2 * width else 0.1
                ctx.check(mu < got and abs((got - mu) / sg - 2 * 2 ** 0.5) <= slack,
                          f"{dt} frames, peak in bin {b} of 1000, {width} bins wide, {ends} pixels at the ends: {(got - mu) / sg:.3f} standard deviations from the centre, expected {2 * 2 ** 0.5:.3f}")
                ctx.step()
                ctx.state(b, width, ends)
                ctx.outcome(round((got - mu) / sg, 2))


# ---------------------------------------------------------------- calibrations
class Peaked(calib.Sensor):
    """Transmittances on a grid with one most frequent value, the same for every polarizer angle."""

    def __init__(self, h, w, phases, salt=0, block=1):
        super().__init__(h, w, phases, salt, block)
        counts = [1, 2, 4, 7, 9, 7, 4, 2, 1]
        hs, ws = (h // 2 + block - 1) // block, (w // 2 + block - 1) // block
        n = hs * ws * 4
        vals = np.concatenate([np.repeat(0.60025 + 0.0005 * np.arange(9), counts)] * (n // 37 + 1))[:n - 2]
        vals = np.concatenate([vals, [0.3, 0.8]])
        vals = vals[(np.arange(n) * 7 + salt) % n if n % 7 else (np.arange(n) * 11 + salt) % n]
        up = lambda a: a.repeat(block, 0).repeat(block, 1)[:h // 2, :w // 2]
        self.t = ref.merge([up(vals[q::4].reshape(hs, ws)) for q in range(4)])


def estimate(frames, mask=None):
    """The library's own estimate on the four frames which must count, and on the pixels which must."""
    f = np.array([x if mask is None else x[mask] for x in frames], float)
    f = f.reshape(4, 1, -1)
    return float(ml.get_malus_normalization(f))


def decide(ctx, sen, d, S, est, what, mask=None, flat=1.0):
    ok = np.ones(sen.t.shape, bool) if mask is None else mask
    t = sen.t * S / est * flat
    got = np.asarray(d.tk, float)
    ctx.check(got.shape == t.shape, f"{what}: transmittances have shape {got.shape}")
    use = ok & (t < 0.998)
    # the fit of the estimate is only as exact as its iteration
    ctx.same(np.where(use, got, t), t, f"{what}: transmittances, signals divided by {S / float(np.median((got / sen.t)[use])):.4f}, expected {est:.4f}", atol=2e-4)
    ctx.check(use.mean() > 0.2, f"{what}: the harness compares too few pixels")
    ctx.step()
    ctx.outcome(round(est, 2))


def go(ctx, sen, S, angles, order=None, **kw):
    files = calib.write_frames(ctx.scratch / "in", [sen.frame(S, a) for a in angles])
    order = order or list(range(len(angles)))
    return calib.calibrate([angles[i] for i in order], [files[i] for i in order], [0, 45, -45, 90], calib.fresh(ctx.scratch / "out"), **kw)


def run_orders(s, ctx):
    angles = [0, 45, 90, -45, 20][:s["n"]]
    sen = Peaked(10, 8, [0, 45, -45, 90], salt=s["p"][0])
    est = estimate([sen.frame(4000.0, a) for a in NORM])
    d = go(ctx, sen, 4000.0, angles, s["p"])
    decide(ctx, sen, d, 4000.0, est, f"frames {angles} listed in order {s['p']}")
    ctx.state(s)


def run_repeat(s, ctx):
    angles = [a for a, r in zip(NORM, s["rep"]) for _ in range(r)]
    sen = Peaked(10, 8, [0, 45, -45, 90], salt=3)
    est = estimate([sen.frame(4000.0, a) for a in NORM])
    files = calib.write_frames(ctx.scratch / "in", [sen.frame(4000.0, a) for a in angles], names=[f"n{(7 * k) % 23:02d}" for k in range(len(angles))])
    for rev in (False, True):
        o = list(range(len(angles)))[::-1 if rev else 1]
        d = calib.calibrate([angles[i] for i in o], [files[i] for i in o], [0, 45, -45, 90], calib.fresh(ctx.scratch / "out"))
        decide(ctx, sen, d, 4000.0, est, f"frames at {[angles[i] for i in o]} degrees")
        ctx.state(s, rev)


def run_extra(s, ctx):
    sen = Peaked(10, 8, [0, 45, -45, 90], salt=5)
    for base in (NORM, [0, 45, 90, 135]):
        for where in ("before", "after"):
            angles = s["extra"] + base if where == "before" else base + s["extra"]
            if len(set(angles)) < len(angles):
                continue
            est = estimate([sen.frame(2500.0, a) for a in NORM])
            d = go(ctx, sen, 2500.0, angles)
            decide(ctx, sen, d, 2500.0, est, f"frames at {angles} degrees")
            ctx.state(s, base, where)


def run_occulter(s, ctx):
    """Nothing but a little stray light reaches the pixels behind the occulter."""
    occ = [[12, 12, 4], [12, 12, 9], [2, 18, 7], [11, 13, 11], [0, 0, 9], [23, 23, 12], [12, 6, 7], [7, 17, 1], [13, 13, 10]][s["o"]]
    sen = Peaked(24, 24, [0, 45, -45, 90], salt=s["o"])
    un = c32.unusable(24, 24, occ)
    free = ~un.repeat(2, 0).repeat(2, 1)
    for stray in (0.0, 0.01, 0.9):
        frames = [np.where(free, sen.frame(4000.0, a), stray * 4000.0) for a in NORM]
        est = estimate(frames, free)
        files = calib.write_frames(ctx.scratch / "in", frames)
        d = calib.calibrate(NORM, files, [0, 45, -45, 90], calib.fresh(ctx.scratch / "out"), occulter=list(occ))
        decide(ctx, sen, d, 4000.0, est, f"occulter {occ}, {100 * stray:.0f}% light behind it", mask=free)
        ctx.state(s, stray)


def run_corr(s, ctx):
    b = s["b"]
    h, w = 10 * b, 8 * b
    sen = Peaked(h, w, [0, 45, -45, 90], salt=b, block=b)
    frames = [sen.frame(4000.0, a) for a in NORM]
    kw, fac = {}, 1.0
    small = sen.sub(slice(0, h // b), slice(0, w // b))
    pick = lambda m: ref.merge([f[::b, ::b] for f in ref.split(m)])
    small.t, small.e, small.phi = pick(sen.t), pick(sen.e), pick(sen.phi)
    if s["flat"]:
        pat = ref.merge([(0.7 + 0.2 * ref.code(5, 4, salt=q) / 2500).repeat(b, 0).repeat(b, 1) for q in range(4)])
        calib.write(f"{ctx.scratch}/flat.fits", 3000.0 * pat)
        kw["flat_filename"] = f"{ctx.scratch}/flat.fits"
        frames = [f * pat for f in frames]
        p = pick(pat)
        fac = p.mean() + p.std()
    if s["dark"]:
        dk = np.floor(ref.code(h, w, salt=9) / 10)
        frames = [f + dk for f in frames]
        calib.write(f"{ctx.scratch}/dark.fits", dk)
        kw["dark_filename"] = f"{ctx.scratch}/dark.fits"
    est = estimate([small.frame(4000.0 * b * b, a) * fac for a in NORM])
    files = calib.write_frames(ctx.scratch / "in", frames)
    d = calib.calibrate(NORM, files, [0, 45, -45, 90], calib.fresh(ctx.scratch / "out"), binning=b, **kw)
    decide(ctx, small, d, 4000.0 * b * b, est, f"binning {b}, dark {s['dark']}, flat {s['flat']}", flat=fac)
    ctx.state(s)


def run_refused(s, ctx):
    sen = Peaked(4, 4, [0, 45, -45, 90])
    for angles in ([0, 45, 90, 30], [0, 45, 90], [45, 90, 135], [0, 30, 60, 90, 120, 150], [0, 45, -45, 135], [-45, 0, 90]):
        files = calib.write_frames(ctx.scratch / "in", [sen.frame(4000.0, a) for a in angles])
        out = calib.fresh(ctx.scratch / "out")
        ctx.raises(ValueError, lambda: calib.calibrate(angles, files, [0, 45, -45, 90], out), f"frames at {angles} degrees without maximum signal")
        ctx.step()
        ctx.state(angles)
