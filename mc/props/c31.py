"""Every failing or short file-system call of every writer."""
import os

import numpy as np
import micropolarray as ml
from mc import calib, fault, fitsio, ref
from mc.core import Violation

LEVEL = "fault_enumeration"
RULE = ("for every writer and frame size the file-system calls of one undisturbed run are recorded; then one execution for every fault: each call failing once (EIO, "
        "ENOSPC) or from then on, each read and write short at up to 6 lengths, once or followed by persistent failure; after each, an exception "
        "was raised or all files are complete and exact")
BOUNDS = {
    "quick": "14 writers (image, parameter, all parameters, orientations, demosaiced, clamped variants, raw file, raw merge sum/average, raw conversion) x 4 frame "
             "sizes (data below, equal to and above one FITS block and one buffer) x fresh/existing output; every fault of every call",
    "thorough": "7 frame sizes, 3 earlier states of the output",
}
ASSUMPTIONS = ["the writers reach the file system through libc"]
PARAMS = ("I", "Q", "U", "pB", "AoLP", "DoLP")


def scenarios(tier, seed):
    q = tier == "quick"
    shapes = [(4, 6), (24, 30), (36, 40), (46, 66)] + ([] if q else [(2, 2), (100, 130), (12, 60)])
    for h, w in shapes:
        for writer in WRITERS:
            for earlier in (False, True):
                yield dict(h=h, w=w, writer=writer, earlier=earlier, salt=seed)


def image(h, w, k, demosaiced=False):
    im = ml.MicropolImage(ref.code(h, w, salt=k), angle_dic=ref.dic_of(k % 24))
    if demosaiced:
        im.demosaic()
    return im


def fam(h, w, k, dem=False):
    d = ref.code(h, w, salt=k)
    return ref.demosaic(d, "adjacent") if dem else ref.split(d)


def params(h, w, k):
    dic = ref.dic_of(k % 24)
    S = ref.stokes(fam(h, w, k), dic)
    return dict(I=S[0], Q=S[1], U=S[2], pB=ref.pb(S), AoLP=ref.aolp(S), DoLP=ref.dolp(S))


def raws(d, h, w, n):
    files = []
    for i in range(n):
        a = (np.floor(ref.code(h, w, salt=i)) * 3 + i).astype("<u2")
        a.tofile(d / f"r{i}.raw")
        files.append(str(d / f"r{i}.raw"))
    return files, [np.fromfile(f, dtype="<u2").reshape(h, w).astype(float) for f in files]


def w_image(d, h, w, k):
    im = ml.Image(ref.code(h, w, salt=k))
    return lambda: im.save_as_fits(str(d / "o/x.fits")), {"o/x.fits": ref.code(h, w, salt=k)}


def w_imageclamp(d, h, w, k):
    im = ml.Image(ref.code(h, w, salt=k).astype(np.uint16))
    return (lambda: im.save_as_fits(str(d / "x.fits"), fixto=[100, 900]),
            {"x.fits": np.clip(np.floor(ref.code(h, w, salt=k)), 100, 900)})


def w_micropol(d, h, w, k):
    im = image(h, w, k)
    return lambda: im.save_as_fits(str(d / "o.p/x.y.fits")), {"o.p/x.y.fits": ref.code(h, w, salt=k)}


def w_param(d, h, w, k):
    im = image(h, w, k)
    p = PARAMS[k % 6]
    return lambda: im.save_param_as_fits(p, str(d / "x.fits")), {f"x_{p}.fits": params(h, w, k)[p]}


def w_paramclamp(d, h, w, k):
    im = image(h, w, k)
    return lambda: im.save_param_as_fits("Q", str(d / "n/x.fits"), fixto=[-50, 60]), {"n/x_Q.fits": np.clip(params(h, w, k)["Q"], -50, 60)}


def w_all(d, h, w, k):
    im = image(h, w, k)
    return lambda: im.save_all_pol_params_as_fits(str(d / "x.fits")), {f"x_{p}.fits": v for p, v in params(h, w, k).items()}


def w_single(d, h, w, k):
    im = image(h, w, k)
    return lambda: im.save_single_pol_images(str(d / "x.fits")), ("POL", {a: fam(h, w, k)[ref.dic_of(k % 24)[a]] for a in ref.ANGLES})


def w_singleclamp(d, h, w, k):
    im = image(h, w, k)
    return (lambda: im.save_single_pol_images(str(d / "x.fits"), fixto=[0, 500]),
            ("POL", {a: np.clip(fam(h, w, k)[ref.dic_of(k % 24)[a]], 0, 500) for a in ref.ANGLES}))


def w_demo(d, h, w, k):
    im = image(h, w, k, True)
    return lambda: im.save_demosaiced_images_as_fits(str(d / "x.fits")), ("POL", {a: fam(h, w, k, True)[ref.dic_of(k % 24)[a]] for a in ref.ANGLES})


def w_merge(d, h, w, k):
    files, arr = raws(d, h, w, 2)
    return lambda: ml.merge_rawfiles_to_fits(files, str(d / "x.fits"), h, w), {"x.fits": arr[0] + arr[1]}


def w_average(d, h, w, k):
    files, arr = raws(d, h, w, 2)
    return lambda: ml.average_rawfiles_to_fits(files, str(d / "x.fits"), h, w), {"x.fits": (arr[0] + arr[1]) / 2}


def w_convert(d, h, w, k):
    files, arr = raws(d, h, w, 1)
    return lambda: ml.convert_rawfile_to_fits(files[0], h, w), {"r0.fits": arr[0]}


def w_convertremove(d, h, w, k):
    files, arr = raws(d, h, w, 1)
    return lambda: ml.convert_rawfile_to_fits(files[0], h, w, remove_old=True), {"r0.fits": arr[0]}


def w_raw(d, h, w, k):
    a = np.floor(ref.code(h, w, salt=k))
    im = image(h, w, k)
    im.data = a
    return lambda: im.save_as_raw(str(d / "x.raw")), {"x.raw": a}


WRITERS = {n[2:]: f for n, f in list(globals().items()) if n.startswith("w_")}


def wrong(d, want):
    """None if all files are complete and exact."""
    if isinstance(want, tuple):
        found = {}
        for n in sorted(os.listdir(d)):
            if not n.endswith(".fits"):
                continue
            try:
                cards, data = fitsio.read(d / n)
            except (OSError, fitsio.Broken) as e:
                return f"{n}: {e}"
            lab = [v for c, v, _ in cards if c == want[0]]
            if lab:
                found[int(lab[0])] = data
        if set(found) != set(want[1]):
            return f"files labelled {sorted(found)}"
        pairs = [(f"orientation {a}", found[a], want[1][a]) for a in want[1]]
    else:
        pairs = []
        for n, v in want.items():
            try:
                pairs.append((n, fitsio.read(d / n)[1] if n.endswith(".fits") else np.fromfile(d / n, dtype="<i2")[:v.size + 1], v if n.endswith(".fits") else v.ravel()))
            except (OSError, fitsio.Broken) as e:
                return f"{n}: {e}"
    for n, g, v in pairs:
        if g is None or g.shape != v.shape:
            return f"{n}: wrong size"
        if not np.allclose(g.astype(float), v, rtol=1e-12, atol=1e-9):
            return f"{n}: wrong values"
    return None


def run(s, ctx):
    h, w = s["h"], s["w"]
    base = ctx.scratch / "c31"
    k = s["salt"] + list(WRITERS).index(s["writer"])

    def one(f):
        calib.fresh(base)
        os.makedirs(base)
        os.chdir(base)
        fn, want = WRITERS[s["writer"]](base, h, w, k)
        if s["earlier"]:
            if isinstance(want, tuple):
                for a in want[1]:
                    for sep in ("POL", "_POL"):
                        calib.write(base / f"x{sep}{a}.fits", np.full((60, 70), 3.0))
            else:
                for n in want:
                    os.makedirs((base / n).parent, exist_ok=True)
                    calib.write(base / n, np.full((60, 70), 3.0))
        o = fault.execute(fn, base, *(f or (fault.COUNT,)))
        os.chdir(ctx.scratch)
        bad = wrong(base, want)
        ctx.trace()
        ctx.step()
        ctx.state(s, f)
        ctx.outcome(s["writer"], o.end, bad is None)
        return o, bad

    what = f"{s['writer']} writer, {h}x{w}{', earlier files present' if s['earlier'] else ''}"
    o, bad = one(None)
    ctx.check(o.end == "returned" and bad is None, f"{what}: {o.end} {o.error or ''} {bad or ''}")
    ops = o.ops
    ctx.count("calls recorded", len(ops))
    for f in fault.failures(ops):
        o, bad = one(f)
        wf = f"{what}: {fault.describe(ops, f)}"
        ctx.count(fault.NAMES[f[0]])
        ctx.check(o.end in ("returned", "raised"), f"{wf}: {o.end} {o.error}")
        if o.end == "returned":
            ctx.check(bad is None, f"{wf}: success reported but {bad}")
        else:
            ctx.count("errors reported")
