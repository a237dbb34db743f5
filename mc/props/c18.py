"""Exploration of save and reload over pixel types, operation histories, savers, ranges and file names; files are read by an independent parser."""
import itertools
import os
import shutil

import numpy as np
import micropolarray as ml
from mc import calib, fitsio, ref
from mc.core import Violation
from mc.props.c10 import demod

BOUNDS = {
    "quick": "round trip: 14 pixel types x 4 shapes x 2 classes, extreme values, NaN and infinities; all sequences of up to 2 of 15 operations from 3 sources (array, "
             "file, 16-bit file) with 9 header cards; savers: 24 orientation assignments x 5 savers x 8 ranges x demosaiced or not; 12 file name forms x 6 savers",
    "thorough": "sequences of up to 3 operations; 48 assignments x 20 ranges",
}
ASSUMPTIONS = ["64-bit integers up to 2^53 (images are held as floats after loading)"]
DTYPES = ["u1", "i2", "u2", "i4", "u4", "i8", "u8", "f4", "f8", ">i2", ">u2", ">i4", ">f4", ">f8"]
CARDS = dict(OBJECT="corona", EXPTIME=1.5, NFRAMES=12, FLAGT=True, NEG=-3, LONGS="x" * 60, QUOTE="it's", EMPTY="", TINY=1.25e-30)
RANGES = [(0, 100), (-50, 0), (0, 0), (3, 7.5), (-1e9, 1e9), (100, 900.25), (0.0, 1e6), (-20, 40)]
PARAMS = ("I", "Q", "U", "pB", "AoLP", "DoLP")


def typed(dt, h, w, salt):
    t = np.dtype(dt)
    v = ref.code(h, w, salt=salt)
    if t.kind == "f":
        a = v.astype(t)
        if a.size > 3:
            a.flat[1], a.flat[2], a.flat[3] = np.nan, np.inf, -np.inf
    else:
        i = np.iinfo(t)
        lo, hi = max(i.min, -2 ** 53), min(i.max, 2 ** 53)
        a = (np.floor(v) % 120).astype(t)
        a.flat[0], a.flat[-1] = hi, lo
        if a.size > 3:
            a.flat[1], a.flat[2] = hi - 1, lo + 1
    return a


def scenarios(tier, seed):
    q = tier == "quick"
    k = seed
    for cls in ("Image", "MicropolImage"):
        for dt in DTYPES:
            for h, w in [(2, 2), (4, 6), (6, 2), (40, 50)]:
                yield dict(t="types", cls=cls, dt=dt, h=h, w=w, k=k)
                k += 1
    for src in SOURCES:
        for first in OPS:
            yield dict(t="history", src=src, first=first, depth=2 if q else 3, k=k)
            k += 1
    for a in range(24 if q else 48):
        for dem in (False, True):
            yield dict(t="savers", a=a, dem=dem, nr=8 if q else 20, k=k)
            k += 1
    for saver in SAVERS:
        yield dict(t="names", saver=saver, k=k)


def put_cards(im):
    for n, v in CARDS.items():
        im.header[n] = v
    im.header["COMMENT"] = "a comment"
    im.header["HISTORY"] = "a history"


STRUCT = {"SIMPLE", "BITPIX", "NAXIS", "NAXIS1", "NAXIS2", "EXTEND", "BSCALE", "BZERO", "END", ""}


def header_items(h):
    return [(c.keyword, c.value) for c in h.cards if c.keyword not in STRUCT and c.keyword not in ("COMMENT", "HISTORY")]


def comments(h):
    return [str(c) for k in ("COMMENT", "HISTORY") if k in h for c in h[k]]


def check_file(ctx, path, want, what, exact=True):
    try:
        cards, data = fitsio.read(path)
    except (OSError, fitsio.Broken) as e:
        raise Violation(f"{what}: file {os.path.basename(str(path))}: {e}")
    ctx.check(data is not None, f"{what}: no data in the file")
    if exact:
        w = np.asarray(want)
        ctx.check(data.shape == w.shape, f"{what}: {data.shape} data in the file instead of {w.shape}")
        if w.dtype.kind in "iu":
            ctx.check(all(int(a) == int(b) for a, b in zip(data.ravel(), w.ravel())), f"{what}: pixel values in the file differ")
        else:
            ctx.exact(data, w.astype(float), f"{what}: pixel values in the file")
    else:
        ctx.same(data, want, f"{what}: values in the file", rtol=1e-12)
    return cards


def roundtrip(ctx, im, path, what):
    before = np.array(im.data)
    items, coms = header_items(im.header), comments(im.header)
    im.save_as_fits(str(path))
    ctx.exact(im.data, before, f"{what}: data after saving")
    cards = check_file(ctx, path, before, what)
    ctx.check(header_items(im.header) == items, f"{what}: saving changed the header")
    have = {k: v for k, v, _ in cards}
    for k, v in items:
        g = have.get(k)
        ok = k in have and (g == v or (isinstance(v, float) and isinstance(g, (int, float)) and abs(g - v) <= 1e-12 * abs(v)) or (isinstance(v, str) and (len(v) > 60 or g == v.rstrip())))
        ctx.check(ok, f"{what}: header card {k} = {v!r} is {g!r} in the file")
    for cls in (ml.Image, ml.MicropolImage):
        again = cls(str(path))
        ctx.exact(again.data, before.astype(float), f"{what}: data reloaded as {cls.__name__}")
        got = header_items(again.header)
        for kv in items:
            ctx.check(kv in got, f"{what}: header card {kv} is lost or changed after reloading ({[g for g in got if g[0] == kv[0]]})")
        ctx.check([c for c in coms if c not in comments(again.header)] == [], f"{what}: comments or history lost")
        ctx.check(again.filename == str(path), f"{what}: file name")
        ctx.check((again.header["NAXIS2"], again.header["NAXIS1"]) == before.shape, f"{what}: size in the header")
    return again


def run(s, ctx):
    globals()["run_" + s["t"]](s, ctx)


def run_types(s, ctx):
    d = typed(s["dt"], s["h"], s["w"], s["k"])
    cls = getattr(ml, s["cls"])
    im = cls(d)
    put_cards(im)
    p = ctx.scratch / "t.fits"
    what = f"{s['cls']} of {s['dt']} {s['h']}x{s['w']}"
    again = roundtrip(ctx, im, p, what)
    # what was loaded saves and loads the same again, over itself
    roundtrip(ctx, again, p, what + " saved, loaded")
    ctx.step(2)
    ctx.trace()
    ctx.state(what, d)


# ------------------------------------------------------------ histories
OPS = ["none", "copy", "add", "sub", "mul", "div", "add number", "rebin", "congrid", "rotate", "shift", "demosaic", "dark", "flat", "ifov", "mask", "hot", "demodulate",
       "save"]
SOURCES = ["array", "file", "16-bit file"]


def source(s, ctx):
    d = np.floor(ref.code(8, 12, salt=s["k"]))
    p = ctx.scratch / "src.fits"
    if s["src"] == "array":
        im = ml.MicropolImage(d, angle_dic=ref.dic_of(s["k"] % 48))
    else:
        fitsio.write(p, d if s["src"] == "file" else d.astype(np.uint16))
        im = ml.MicropolImage(str(p), angle_dic=ref.dic_of(s["k"] % 48))
    put_cards(im)
    return im


def apply(op, im, ctx):
    if op == "none":
        return im
    if op == "copy":
        return ml.MicropolImage(im)
    if op == "add":
        return im + im
    if op == "sub":
        return im - ml.MicropolImage(np.full(im.data.shape, 3.5), angle_dic=im.angle_dic)
    if op == "mul":
        return im * im
    if op == "div":
        return im / ml.MicropolImage(ref.code(*im.data.shape, salt=5), angle_dic=im.angle_dic)
    if op == "add number":
        return im + 2.5
    if op == "rebin":
        return im.rebin(2)
    if op == "congrid":
        return im.congrid(10, 6)
    if op == "rotate":
        return im.rotate(90)
    if op == "shift":
        return im.shift(1, -1)
    if op == "demosaic":
        return im.demosaic()
    if op == "dark":
        return im.subtract_dark(ml.MicropolImage(np.full(im.data.shape, 9.0)))
    if op == "flat":
        return im.correct_flat(ml.MicropolImage(ref.code(*im.data.shape, salt=9) + 500))
    if op == "ifov":
        return im.correct_ifov()
    if op == "mask":
        im.mask_occulter(y=4, x=4, r=2)
        return im
    if op == "hot":
        return im.clean_hot_pixels(ml.MicropolImage((ref.code(*im.data.shape) % 3 == 0).astype(float)))
    if op == "demodulate":
        return im.demodulate(demod(*im.data.shape, ctx.scratch))
    if op == "save":
        im.save_as_fits(str(ctx.scratch / "mid.fits"))
        return ml.MicropolImage(str(ctx.scratch / "mid.fits"), angle_dic=im.angle_dic)


def run_history(s, ctx):
    for rest in itertools.chain(*(itertools.product(OPS[1:], repeat=n) for n in range(s["depth"]))):
        seq = (s["first"],) + rest
        im = source(s, ctx)
        want = dict(header_items(im.header))
        for op in seq:
            im = apply(op, im, ctx)
            ctx.step()
        what = f"{s['src']} after {' and '.join(seq)}"
        if min(im.data.shape) < 1:
            continue
        p = ctx.scratch / "h.fits"
        roundtrip(ctx, im, p, what)
        ctx.trace()
        ctx.state(what)
        ctx.outcome(np.asarray(im.data))
        if rest:
            continue
        # savers after each single operation
        save_all(ctx, im, ctx.scratch / "hs", what, None)


# ------------------------------------------------------------ savers
SAVERS = ["image", "param", "all", "single", "demosaiced"]


def polval(v):
    return int(float(v))


def save_all(ctx, im, d, what, rng, savers=SAVERS[1:]):
    """Runs savers and reads every file back; the model is the maps of the image at the time of saving."""
    S = np.array(im.Stokes_vec)
    maps = dict(I=S[0], Q=S[1], U=S[2], pB=ref.pb(S), AoLP=ref.aolp(S), DoLP=ref.dolp(S))
    dic = dict(im.angle_dic)
    clamp = (lambda a: a) if rng is None else (lambda a: np.clip(np.asarray(a, float), *rng))
    kw = {} if rng is None else dict(fixto=list(rng))
    titles = {}
    for saver in savers:
        calib.fresh(d)
        if saver == "param":
            for p in PARAMS:
                im.save_param_as_fits(p, str(d / "a/b.c.fits"), **kw)
            files = {f"b.c_{p}.fits": clamp(maps[p]) for p in PARAMS}
            ctx.check(sorted(os.listdir(d / "a")) == sorted(files), f"{what}: parameter files {sorted(os.listdir(d / 'a'))}")
            for n, v in files.items():
                cards = check_file(ctx, d / "a" / n, v, f"{what}, range {rng}: {n}", exact=False)
                titles.setdefault(n.split("_")[1], [v for k, v, _ in cards if k == "PARAM"])
        elif saver == "all":
            if rng is not None:
                continue
            im.save_all_pol_params_as_fits(str(d / "x.y.fits"))
            ctx.check(sorted(os.listdir(d)) == sorted(f"x.y_{p}.fits" for p in PARAMS), f"{what}: files of all parameters {sorted(os.listdir(d))}")
            for p in PARAMS:
                cards = check_file(ctx, d / f"x.y_{p}.fits", maps[p], f"{what}: all parameters, {p}", exact=False)
                ctx.check(titles.get(p + ".fits", None) in (None, [v for k, v, _ in cards if k == "PARAM"]), f"{what}: label of {p}")
        elif saver == "single":
            im.save_single_pol_images(str(d / "q.fits"), **kw)
            orient(ctx, d, ref.split(im.data), dic, clamp, f"{what}, range {rng}: single orientations")
        elif saver == "demosaiced":
            if im.demosaiced_images is None:
                continue
            im.save_demosaiced_images_as_fits(str(d / "q.r.fits"), **kw)
            orient(ctx, d, np.asarray(im.demosaiced_images, float), dic, clamp, f"{what}, range {rng}: demosaiced")
        ctx.step()
    # labels of different parameters differ
    labels = [t[0] for t in titles.values() if t]
    ctx.check(len(set(labels)) == len(labels), f"{what}: parameter labels {labels}")


def orient(ctx, d, fams, dic, clamp, what):
    names = sorted(os.listdir(d))
    ctx.check(len(names) == 4, f"{what}: files {names}")
    seen = set()
    for n in names:
        lab = n[:-5].rsplit("POL", 1)
        ctx.check(n.endswith(".fits") and len(lab) == 2 and lab[1] in ("0", "45", "-45", "90"), f"{what}: file name {n}")
        a = int(lab[1])
        seen.add(a)
        cards = check_file(ctx, d / n, clamp(fams[dic[a]]), f"{what}: {n}", exact=False)
        pol = [v for k, v, _ in cards if k == "POL"]
        ctx.check(pol and polval(pol[0]) == a, f"{what}: POL card of {n} is {pol}")
    ctx.check(len(seen) == 4, f"{what}: orientations {seen}")


def run_savers(s, ctx):
    dic = ref.dic_of(s["a"])
    d = ref.code(6, 10, salt=s["k"]) - 600
    im = ml.MicropolImage(d, angle_dic=dic)
    put_cards(im)
    if s["dem"]:
        im.demosaic("adjacent" if s["a"] % 2 else "mean")
    rngs = RANGES if s["nr"] == 8 else RANGES + [(a, b) for a in (-7, 0, 0.5) for b in (0.5, 0.75, 10, 2000)]
    for rng in [None] + rngs:
        save_all(ctx, im, ctx.scratch / "sv", f"assignment {dic}{', demosaiced' if s['dem'] else ''}", rng)
        p = ctx.scratch / "i.fits"
        if rng is None:
            im.save_as_fits(str(p))
            check_file(ctx, p, d, "image")
        else:
            for dt in ("f8", "i4", "u2"):
                b = np.abs(np.floor(d)).astype(dt)
                ml.MicropolImage(b, angle_dic=dic).save_as_fits(str(p), fixto=list(rng))
                check_file(ctx, p, np.clip(b.astype(float), *rng), f"{dt} image, range {rng}", exact=False)
                ml.Image(b).save_as_fits(str(p), fixto=list(rng))
                check_file(ctx, p, np.clip(b.astype(float), *rng), f"plain {dt} image, range {rng}", exact=False)
        dt = ("i2", "u2", "i4", ">f4")[(s["a"] + len(str(rng))) % 4]
        save_all(ctx, ml.MicropolImage(np.abs(np.floor(d)).astype(dt), angle_dic=dic), ctx.scratch / "sv", f"assignment {dic}, {dt} image", rng, SAVERS[1:4])
        ctx.exact(im.data, d, "image after saving")
        ctx.state(s["a"], s["dem"], rng)
    # demosaiced images of an image which is not
    if not s["dem"]:
        ctx.raises(ValueError, lambda: im.save_demosaiced_images_as_fits(str(ctx.scratch / "z.fits")), "demosaiced images of an image not demosaiced")
    ctx.trace()


GOOD = ["x.fits", "x.y.fits", "x.fits.fits", "new/x.fits", "new/deep/x.fits", "new.d/x.1.fits", "a b.fits", "..fits"]
BAD = ["x", "x.fit", "x.txt", "x.fits.gz", "new/x", "new/deep/x", "new/deep/x.txt", "x.fits.bak", "xfits", "new.fits/x"]


def run_names(s, ctx):
    saver = s["saver"]
    d = ref.code(4, 4, salt=s["k"])
    im = ml.MicropolImage(d, angle_dic=ref.dic_of(1))
    im.demosaic()
    base = ctx.scratch / "nm"
    fn = {
        "image": lambda n: im.save_as_fits(n),
        "param": lambda n: im.save_param_as_fits("Q", n),
        "all": lambda n: im.save_all_pol_params_as_fits(n),
        "single": lambda n: im.save_single_pol_images(n),
        "demosaiced": lambda n: im.save_demosaiced_images_as_fits(n),
    }[saver]
    for form in ("absolute", "relative", "dot"):
        for n in GOOD:
            if n == "..fits":
                continue
            for again in (False, True):
                calib.fresh(base)
                os.makedirs(base / "cwd")
                os.chdir(base / "cwd")
                arg = {"absolute": str(base / "cwd" / n), "relative": n, "dot": f"./{n}"}[form]
                what = f"{saver} saved as {form} '{n}'"
                fn(arg)
                if again:
                    # existing files are overwritten, also by other content
                    for root, _, names in os.walk(base):
                        for m in names:
                            fitsio.write(os.path.join(root, m), np.zeros((70, 50)))
                    fn(arg)
                os.chdir(ctx.scratch)
                folder = (base / "cwd" / n).parent
                stem = os.path.basename(n)[:-5]
                files = [m for m in os.listdir(folder) if m.endswith(".fits")]
                every = [m for _, _, names in os.walk(base) for m in names]
                want = dict(image=1, param=1, all=6, single=4, demosaiced=4)[saver]
                ctx.check(len(files) == len(every) == want and all(m.startswith(stem) for m in files), f"{what}: files {every}")
                if saver == "image":
                    check_file(ctx, folder / f"{stem}.fits", d, what)
                elif saver == "param":
                    check_file(ctx, folder / f"{stem}_Q.fits", im.Q.data, what, exact=False)
                elif saver == "all":
                    for p in PARAMS:
                        check_file(ctx, folder / f"{stem}_{p}.fits", getattr(im, p).data, what, exact=False)
                else:
                    fams = ref.split(d) if saver == "single" else np.asarray(im.demosaiced_images)
                    orient(ctx, folder, fams, ref.dic_of(1), lambda a: a, what)
                ctx.step()
                ctx.state(saver, form, n, again)
        for n in BAD:
            calib.fresh(base)
            os.makedirs(base / "cwd")
            os.chdir(base / "cwd")
            arg = {"absolute": str(base / "cwd" / n), "relative": n, "dot": f"./{n}"}[form]
            ctx.raises(ValueError, lambda: fn(arg), f"{saver} saved as {form} '{n}'")
            os.chdir(ctx.scratch)
            every = [m for _, _, names in os.walk(base) for m in names]
            ctx.check(not every, f"{saver} saved as {form} '{n}': files {every} written")
            ctx.step()
            ctx.state(saver, form, n)
    ctx.trace()
