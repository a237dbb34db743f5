"""Exhaustive enumeration of display calls; the artists of the produced figures are read back and compared with the maps they must show."""
import re

import matplotlib
import matplotlib.pyplot as plt
import numpy as np
import micropolarray as ml
from mc import ref
from mc.core import Violation
from mc.props import c16

BOUNDS = {
    "quick": "9 display methods x 48 orientation assignments x 2 of 5 frame shapes (rotating), 9 colour ranges (missing, zero, negative, equal bounds), plain, demosaiced (3 modes), demodulated, masked and rebinned images, 7 kinds of frame, "
             "4 pixel types; histograms with 6 bin specifications; calibrations of 5 shapes",
    "thorough": "all assignments on 12 frame shapes and all colour ranges",
}
RANGES = [dict(), dict(vmin=0), dict(vmax=0), dict(vmin=0, vmax=0), dict(vmin=-5, vmax=5), dict(vmin=10.5), dict(vmax=77), dict(vmin=100, vmax=2000), dict(vmin=-1e-3, vmax=0.0)]
SHAPES = [(4, 6), (6, 4), (2, 2), (8, 8), (2, 10)]
MORE = SHAPES + [(10, 2), (12, 6), (6, 12), (16, 16), (4, 4), (30, 2), (2, 4)]
TIME_LIMIT = 600.0
PARAMS = {"I": "Stokes I", "Q": "Stokes Q", "U": "Stokes U", "pB": "Polarized brightness", "AoLP": "Angle of Linear Polarization", "DoLP": "Degree of Linear Polarization"}


def scenarios(tier, seed):
    q = tier == "quick"
    for k in range(48):
        yield dict(t="dic", d=k, shapes=[SHAPES[k % 5], SHAPES[(k // 5 + 1) % 5]] if q else MORE, ranges=1 if q else len(RANGES), k=seed)
    for kind in ("code", "signed", "holes", "zero", "const", "huge", "tiny"):
        yield dict(t="kinds", kind=kind, k=seed)
    for n in range(len(RANGES)):
        yield dict(t="ranges", n=n, k=seed)
    for dt in ("u2", "f4", ">i2", "i4"):
        yield dict(t="types", dt=dt, k=seed)
    for h, w in [(2, 2), (2, 3), (3, 2), (1, 4), (5, 5)]:
        yield dict(t="demodulator", h=h, w=w, k=seed)


def run(s, ctx):
    try:
        globals()["run_" + s["t"]](s, ctx)
    finally:
        plt.close("all")


def maps(im):
    out = [np.array(im.data), np.array(im.Stokes_vec)] + [np.array(p.data) for p in im.polparam_list]
    if im.demosaiced_images is not None:
        out.append(np.array(im.demosaiced_images))
    return out


def snap(im):
    if not isinstance(im, ml.MicropolImage):
        return (im.data.tobytes(), im.data.dtype.str, repr(im.header), im.filename)
    return (im.data.tobytes(), im.data.dtype.str, repr(im.header), im.filename, [m.tobytes() for m in maps(im)], sorted(im.angle_dic.items()))


def shown(ctx, ax, what):
    """(array, (vmin, vmax), title) of the one image of an axes."""
    ims = ax.get_images()
    ctx.check(len(ims) == 1, f"{what}: {len(ims)} images in the axes")
    a = ims[0].get_array()
    a = np.where(np.ma.getmaskarray(a), np.nan, np.ma.getdata(a)).astype(float) if np.ma.is_masked(a) else np.asarray(np.ma.getdata(a), dtype=float)
    return a, ims[0].get_clim(), ax.get_title()


def decide(ctx, ax, want, rng, what):
    a, clim, title = shown(ctx, ax, what)
    w = np.asarray(want, dtype=float)
    ctx.check(a.shape == w.shape, f"{what}: shows {a.shape}, expected {w.shape}")
    ctx.exact(a, w, f"{what}: shown values")
    lo, hi = rng.get("vmin"), rng.get("vmax")
    mean = w.mean() if np.isfinite(w).all() else np.nan  # no default range can be taken from a map with non-finite values
    # a requested bound on the wrong side of the other (requested or default) one gives an inverted or empty range, which matplotlib redefines
    if lo is not None and lo < (mean if hi is None else hi):
        ctx.check(clim[0] == lo, f"{what}: vmin {clim[0]}, requested {lo}")
    if hi is not None and hi > (mean if lo is None else lo):
        ctx.check(clim[1] == hi, f"{what}: vmax {clim[1]}, requested {hi}")
    return title


def flat(axes):
    return list(np.atleast_1d(np.asarray(axes, dtype=object)).ravel())


def angle_of(title, what, ctx):
    m = re.findall(r"(?<![\d.])-?\d+(?![\d.])", title)
    ctx.check(len(m) == 1 and int(m[0]) in ref.ANGLES, f"{what}: title '{title}'")
    return int(m[0])


def every(ctx, im, rng, what, split=True):
    """All display methods of one image."""
    before = snap(im)
    fig, ax = im.show(**rng)
    decide(ctx, ax, im.data, rng, f"show of {what}")
    end(ctx, im, before, f"show of {what}")
    for bins in (dict(), dict(bins=7)):
        hist(ctx, im, bins, split, what)
    if not isinstance(im, ml.MicropolImage):
        return
    for name, title in PARAMS.items():
        p = getattr(im, name)
        w = f"show_pol_param({name}) of {what}"
        fig, ax = im.show_pol_param(name, **rng)
        got = decide(ctx, ax, p.data, rng, w)
        ctx.check(title.lower() in got.lower(), f"{w}: title '{got}'")
        end(ctx, im, before, w)
    for name, angle in (("pol0", 0), ("pol45", 45), ("pol_45", -45), ("pol90", 90)):
        w = f"show_pol_param({name}) of {what}"
        fig, ax = im.show_pol_param(name, **rng)
        got = decide(ctx, ax, ref.split(im.data)[im.angle_dic[angle]], rng, w)
        ctx.check(angle_of(got, w, ctx) == angle, f"{w}: title '{got}'")
        end(ctx, im, before, w)
    for method in ("show_pol_params", "show_with_pol_params"):
        w = f"{method} of {what}"
        res = getattr(im, method)()
        if method == "show_with_pol_params":
            decide(ctx, res[1], im.data, {}, w)
        axes = flat(res[-1])
        ctx.check(len(axes) == 6, f"{w}: {len(axes)} axes")
        seen = set()
        for ax in axes:
            title = ax.get_title()
            names = [n for n, t in PARAMS.items() if title.lower().startswith(t.lower())]
            ctx.check(len(names) == 1, f"{w}: title '{title}'")
            decide(ctx, ax, getattr(im, names[0]).data, {}, f"{w}, {names[0]}")
            seen.add(names[0])
        ctx.check(len(seen) == 6, f"{w}: shows {sorted(seen)}")
        end(ctx, im, before, w)
    w = f"show_single_pol_images of {what}"
    fig, axes = im.show_single_pol_images(**rng)
    orientations(ctx, axes, ref.split(im.data), im.angle_dic, rng, w)
    end(ctx, im, before, w)
    if im.demosaiced_images is not None:
        w = f"show_demo_images of {what}"
        fig, axes = im.show_demo_images(**rng)
        orientations(ctx, axes, np.asarray(im.demosaiced_images), im.angle_dic, rng, w)
        end(ctx, im, before, w)
    ctx.state(what, tuple(rng.items()))


def orientations(ctx, axes, stack, dic, rng, w):
    axes = flat(axes)
    ctx.check(len(axes) == 4, f"{w}: {len(axes)} axes")
    seen = set()
    for ax in axes:
        a = angle_of(ax.get_title(), w, ctx)
        decide(ctx, ax, stack[dic[a]], rng, f"{w}, orientation {a}")
        seen.add(a)
    ctx.check(len(seen) == 4, f"{w}: shows {sorted(seen)}")


def end(ctx, im, before, what):
    plt.close("all")
    ctx.check(snap(im) == before, f"{what}: the image changed")
    ctx.step()


def hist(ctx, im, kw, split, what):
    before = snap(im)
    mp = isinstance(im, ml.MicropolImage)
    for sp in (True, False, None):
        w = f"show_histogram({kw}, split_pols={sp}) of {what}"
        fig, ax = im.show_histogram(**kw) if sp is None else im.show_histogram(split_pols=sp, **kw)
        steps = [p for p in ax.patches if isinstance(p, matplotlib.patches.StepPatch)]
        want = [np.histogram(im.data, **kw)]
        if mp and sp is not False:
            want += [np.histogram(f, **kw) for f in ref.split(im.data)]
        ctx.check(len(steps) == len(want), f"{w}: {len(steps)} curves, expected {len(want)}")
        for k, (p, (v, e)) in enumerate(zip(steps, want)):
            d = p.get_data()
            ctx.exact(d.values, v, f"{w}: counts of curve {k}")
            ctx.same(d.edges, e, f"{w}: edges of curve {k}", rtol=1e-12)
            if k and re.search(r"\d", p.get_label()):
                ctx.check(re.findall(r"\d+", p.get_label()) == [str(k - 1)], f"{w}: curve {k} labelled '{p.get_label()}'")
        end(ctx, im, before, w)


def run_dic(s, ctx):
    dic = ref.dic_of(s["d"])
    for n, (h, w) in enumerate(s["shapes"]):
        d = ref.code(h, w, salt=s["k"] + n)
        for r in range(s["ranges"]):
            rng = RANGES[(s["d"] + n + r * 4) % len(RANGES)] if s["ranges"] < len(RANGES) else RANGES[r]
            im = ml.MicropolImage(d, angle_dic=dic)
            mode = ("adjacent", "mean", "spline")[(n + s["d"]) % 3]
            demosaiced = (r + n) % 2
            if demosaiced:
                im.demosaic(mode)
            every(ctx, im, rng, f"{h}x{w} image of assignment {s['d']}{' demosaiced ' + mode if demosaiced else ''}, range {rng}")
    ctx.trace()


def run_kinds(s, ctx):
    for h, w in SHAPES[:2]:
        d = ref.frame(s["kind"], h, w, salt=s["k"])
        for rng in (RANGES[0], RANGES[4], RANGES[1]):
            every(ctx, ml.Image(d), rng, f"{s['kind']} Image {h}x{w}")
            every(ctx, ml.MicropolImage(d), rng, f"{s['kind']} image {h}x{w}")
            every(ctx, ml.MicropolImage(d).demosaic(), rng, f"{s['kind']} demosaiced image {h}x{w}")
        if s["kind"] not in ("huge", "tiny"):
            for kw in (dict(bins=5), dict(bins=20, range=(0, 100)), dict(bins=[0, 1, 10, 1000]), dict(range=(-1, 1)), dict(density=True, bins=3, range=(-1e10, 1e13)), dict(bins=1)):
                hist(ctx, ml.MicropolImage(d, angle_dic=ref.dic_of(13)), kw, True, f"{s['kind']} image {h}x{w}")
                hist(ctx, ml.Image(d), kw, False, f"{s['kind']} Image {h}x{w}")
    ctx.trace()


def run_ranges(s, ctx):
    rng = RANGES[s["n"]]
    d = ref.code(8, 12, salt=s["k"])
    dic = ref.dic_of(5 * s["n"] % 48)
    dem = c16.folder(ctx.scratch / "cal", c16.matrices(4, 6, 3), None)
    im = ml.MicropolImage(d, angle_dic=dic)
    every(ctx, ml.Image(d), rng, f"Image, range {rng}")
    every(ctx, im, rng, f"image, range {rng}")
    every(ctx, im.demodulate(dem), rng, f"demodulated image, range {rng}")
    every(ctx, im.rebin(2), rng, f"rebinned image, range {rng}")
    every(ctx, im.shift(1, -1), rng, f"shifted image, range {rng}")
    for mode in ("adjacent", "mean", "spline"):
        d2 = ml.MicropolImage(d, angle_dic=dic).demosaic(mode)
        every(ctx, d2, rng, f"{mode} demosaiced image, range {rng}")
        every(ctx, d2.rebin(2), rng, f"{mode} demosaiced and rebinned image, range {rng}")
        d2.mask_occulter(4, 6, 3)
        every(ctx, d2, rng, f"{mode} demosaiced and masked image, range {rng}")
    im.mask_occulter(4, 6, 3)
    every(ctx, im, rng, f"masked image, range {rng}")
    ctx.trace()


def run_types(s, ctx):
    d = np.floor(ref.code(4, 6, salt=s["k"])).astype(s["dt"])
    for rng in RANGES[:5]:
        every(ctx, ml.Image(d), rng, f"{s['dt']} Image, range {rng}")
        every(ctx, ml.MicropolImage(d, angle_dic=ref.dic_of(17)), rng, f"{s['dt']} image, range {rng}")
    ctx.trace()


def run_demodulator(s, ctx):
    for kind in ("code", "holes"):
        m = c16.matrices(s["h"], s["w"], s["k"], kind)
        dem = c16.folder(ctx.scratch / "cal", m, np.ones((s["h"], s["w"])) if kind == "code" else None)
        for rng in (dict(), dict(vmin=0), dict(vmax=0), dict(vmin=-0.5, vmax=2), dict(vmin=0, vmax=0)):
            what = f"calibration {s['h']}x{s['w']}, range {rng}"
            b = np.array(dem.mij)
            fig, axes = dem.show(**rng)
            axes = np.asarray(axes)
            ctx.check(axes.shape == (3, 4), f"{what}: axes {axes.shape}")
            for i in range(3):
                for j in range(4):
                    t = decide(ctx, axes[i, j], m[i, j], dict(vmin=rng.get("vmin", -1), vmax=rng.get("vmax", 1)), f"{what}, matrix {i}{j}")
                    ctx.check(re.findall(r"\d", t) == [str(i), str(j)], f"{what}: matrix {i}{j} titled '{t}'")
            plt.close("all")
            ctx.exact(dem.mij, b, f"{what}: matrices after showing")
            ctx.step()
            ctx.state(s["h"], s["w"], kind, tuple(rng.items()))
    ctx.trace()
