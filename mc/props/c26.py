"""Exhaustive enumeration of Sun centres, frame sizes, binnings and date forms through the real keyword alignment."""
import itertools

import numpy as np
import micropolarray as ml
from astropy.io import fits
from mc import ref
from mc.core import Violation

BOUNDS = {
    "quick": "all even square frames 2..24, 61*4, 488: an impulse at every pixel up to 12x12, coded frames of 6 pixel types, reorientation twice; all 1952 positions per axis for 5 frame sizes and all 2-pixel "
             "positions of a 61 x 61 grid; Sun centres as list, tuple, array and fractional; binnings 1..16; 8 dates",
    "thorough": "impulses up to 24x24, all positions for 12 frame sizes including 1952",
}


def scenarios(tier, seed):
    q = tier == "quick"
    for n in range(2, 26, 2):
        yield dict(t="data", n=n, imp=n <= (12 if q else 24), k=seed)
    for n in (244, 488):
        yield dict(t="data", n=n, imp=False, k=seed)
    for n in (2, 6, 16, 64, 122) + (() if q else (4, 8, 10, 12, 30, 244)):
        for part in range(8):
            yield dict(t="centre", n=n, part=part)
    for n in (488, 976, 1952):  # the real sensor: few calls, the reorientation dominates
        for y in (123, 250, 919, 1016, 0, 1951) if q else range(0, 1952, 61):
            yield dict(t="sensor", n=n, y=y)
    yield dict(t="sky", k=seed)
    yield dict(t="cards", k=seed)


def run(s, ctx):
    globals()["run_" + s["t"]](s, ctx)


def header(**kw):
    h = fits.Header()
    h["DATE-OBS"] = "2021-12-11"
    h["TIME-OBS"] = "10:20:30"
    h["NAXIS1"] = 0
    h["NAXIS2"] = 0
    h["OBJECT"] = "sun"
    for k, v in kw.items():
        h[k] = v
    return h


def anti(d):
    """Every family transposed about its anti-diagonal: (y, x) goes to (n-1-x, n-1-y)."""
    fam = ref.split(d)
    n = fam.shape[1]
    out = np.zeros_like(fam)
    for y in range(n):
        for x in range(n):
            out[:, n - 1 - x, n - 1 - y] = fam[:, y, x]
    return ref.merge(out)


def fast_anti(d):
    return ref.merge([f.T[::-1, ::-1] for f in ref.split(d)])


def align(d, centre, scale=2.0, **kw):
    return ml.align_keywords_and_data(header(), d, centre, scale, **kw)


def run_data(s, ctx):
    n = s["n"]
    frames = []
    if s["imp"]:
        frames += [(f"impulse at {(y, x)}", ref.impulse(n, n, y, x)) for y in range(n) for x in range(n)]
    for dt in ("f8", "f4", ">f4", "i2", ">i2", "u2", "i4"):
        frames.append((f"{dt} frame", np.floor(ref.code(n, n, salt=s["k"])).astype(dt)))
    for k in range(24 if n < 244 else 4):
        frames.append((f"frame {k}", ref.code(n, n, salt=s["k"] + k)))
    nbin = 0
    for name, d in frames:
        what = f"{name} of {n}x{n}"
        c = d.copy()
        want = anti(c) if n <= 24 else fast_anti(c)
        nbin += 1
        h, got = align(d, [100 + 37 * nbin, 200], binning=1 + nbin % 16) if nbin % 3 else align(d, [100, 200])
        ctx.exact(got, want, f"{what}: reoriented data")
        ctx.check((d == c).all(), f"{what}: data of the caller changed")
        _, back = align(got, [100, 200])
        ctx.exact(back, c, f"{what}: reoriented twice")
        ctx.step(2)
        ctx.state(n, name)
        ctx.outcome(got)
        ctx.check(h["NAXIS1"] == n and h["NAXIS2"] == n, f"{what}: size in the header")
    ctx.trace()


def place(ctx, h, n, y, x, what):
    """The reference pixel (FITS counts from 1) is the column and row which the Sun centre's pixel moved to."""
    sy, sx = (n * y) // 1952, (n * x) // 1952
    ctx.check(h["CRPIX1"] == n - sy and h["CRPIX2"] == n - sx,
              f"{what}: reference pixel ({h['CRPIX1']}, {h['CRPIX2']}), the Sun centre is at ({n - sy}, {n - sx})")


def run_centre(s, ctx):
    n = s["n"]
    d = np.zeros((n, n))
    for p in range(s["part"] * 244, (s["part"] + 1) * 244):
        for y, x in ((p, 7), (1945, p), (p, p), (p, 1951 - p)):
            form = (list, tuple, np.array)[(p + x) % 3]
            h, _ = align(d, form([y, x]))
            place(ctx, h, n, y, x, f"Sun centre {(y, x)} on {n}x{n}")
            ctx.step()
            ctx.state(n, y, x)
            ctx.outcome(h["CRPIX1"], h["CRPIX2"])
    if s["part"] == 0:
        for y in range(0, 1952, 32):
            for x in range(0, 1952, 32):
                h, _ = align(d, (y + 0.5, x + 0.25))
                place(ctx, h, n, y + 0.5, x + 0.25, f"Sun centre {(y + 0.5, x + 0.25)} on {n}x{n}")
                ctx.step()
                ctx.state(n, y + 0.5, x + 0.25)
    ctx.trace()


def run_sensor(s, ctx):
    n, y = s["n"], s["y"]
    d = np.zeros((n, n), dtype="u1")
    for x in (127, 254, 941):
        h, _ = align(d, [y, x])
        place(ctx, h, n, y, x, f"Sun centre {(y, x)} on {n}x{n}")
        ctx.step()
        ctx.state(n, y, x)
    ctx.trace()


def run_sky(s, ctx):
    """The pixel of the Sun centre carries a mark; after alignment the mark's family pixel sits where the keywords point."""
    for n in (4, 8, 16, 32):
        for fam in range(4):
            for y in range(n // 2):
                for x in range(n // 2):
                    py, px = 2 * y + fam // 2, 2 * x + fam % 2
                    d = ref.impulse(n, n, py, px)
                    cy, cx = (py + 0.5) * 1952 / n, (px + 0.5) * 1952 / n
                    h, got = align(d, (cy, cx))
                    r, c = np.argwhere(got == 1)[0]
                    # the keywords count mosaic pixels from 1; the mark keeps its own mosaic position inside the superpixel
                    ctx.check((h["CRPIX1"] - 1) // 2 == c // 2 and (h["CRPIX2"] - 1) // 2 == r // 2,
                              f"mark at {(py, px)} of {n}x{n} went to {(r, c)}, keywords point at ({h['CRPIX2'] - 1}, {h['CRPIX1'] - 1})")
                    ctx.check((r % 2, c % 2) == (fam // 2, fam % 2), f"mark at {(py, px)} left its family")
                    ctx.step()
                    ctx.state(n, py, px)
    ctx.trace()


def run_cards(s, ctx):
    d = ref.code(4, 4)
    for b in range(1, 17):
        for scale in (1.0, 2.15, 4.3, 10):
            h, _ = align(d, [919, 941], scale, binning=b)
            for k in ("CDELT1", "CDELT2"):
                ctx.check(abs(h[k] - scale * b) <= 1e-12 * scale * b, f"plate scale {scale} binned {b}: {k} {h[k]}")
            ctx.check(h["CRVAL1"] == 0 and h["CRVAL2"] == 0 and h["CUNIT1"] == h["CUNIT2"] == "arcsec", f"binning {b}: reference value or unit")
            place(ctx, h, 4, 919, 941, f"binning {b}")
            for n in (4, 8, 122):  # centres off the diagonal
                for y, x in ((100, 1900), (1900, 100), (700, 1200)):
                    h, _ = align(np.zeros((n, n)), [y, x], scale, binning=b)
                    place(ctx, h, n, y, x, f"Sun centre {(y, x)} on {n}x{n}, binning {b}")
            ctx.step()
            ctx.state("binning", b, scale)
        h, _ = align(d, [919, 941], 2.5)
        ctx.check(h["CDELT1"] == 2.5 and h["CDELT2"] == 2.5, "plate scale without binning")
    for day, tm in itertools.product(("2021-12-11", "2024-02-29"), ("00:00:00", "23:59:59", "10:20:30.125", "05:06:07")):
        for make in (fits.Header, dict):
            h = make()
            h["DATE-OBS"], h["TIME-OBS"] = day, tm
            h["OBJECT"] = "sun"
            h2, _ = ml.align_keywords_and_data(h, d, [1, 2], 1.0)
            ctx.check(h2["DATE-OBS"] == f"{day}T{tm}" and h2["TIME-OBS"] == tm, f"date {day} {tm}: {h2['DATE-OBS']}")
            ctx.check(h2["OBJECT"] == "sun", "another card changed")
            ctx.step()
            ctx.state(day, tm, make.__name__)
    ctx.trace()
