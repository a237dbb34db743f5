"""Stateless exploration of all rotation/flip sequences of real calibrations, each state compared with moved reference matrices and flags and
with the demodulation of moved images."""
import itertools

import numpy as np
import micropolarray as ml
from mc import ref
from mc.props import c16

OPS = [("rot", 1), ("rot", 2), ("rot", 3), ("rot", -1), ("rot", 0), ("rot", 5), ("flip", 0), ("flip", 1)]
LAST = OPS + [("rot", -2), ("rot", 4), ("rot", -5), ("rot", None), ("flip", -1), ("flip", -2), ("flip", (0, 1))]
BOUNDS = {
    "quick": "all sequences of up to 3 of 8 movements (15 kinds at the last place) of calibrations of 8 sizes, with a flag map, without, and with all superpixels unfitted; after every "
             "movement the matrices, flags and the demodulation (plain and demosaiced) of an equally moved image are compared; 4 quarter turns and 2 flips from every state",
    "thorough": "sequences of up to 4 movements and 12 sizes",
}
SIZES = [(1, 1), (2, 2), (2, 3), (3, 2), (1, 4), (4, 1), (3, 3), (4, 5)]
MORE = SIZES + [(5, 5), (6, 4), (1, 2), (7, 3)]


def scenarios(tier, seed):
    q = tier == "quick"
    for h, w in SIZES if q else MORE:
        for flags in ("mixed", None, "none"):
            for first in OPS:
                yield dict(h=h, w=w, flags=flags, first=first, depth=3 if q else 4, k=seed)


def move(a, op):
    """The superpixel map moved by one operation."""
    kind, k = op
    a = np.asarray(a)
    if kind == "flip":
        for ax in k if isinstance(k, tuple) else (k,):
            a = a[::-1] if ax in (0, -2) else a[:, ::-1]
        return a
    for _ in range((1 if k is None else k) % 4):  # counter-clockwise quarter turn: row r of the result is column w-1-r
        a = np.array([[a[y, a.shape[1] - 1 - x] for y in range(a.shape[0])] for x in range(a.shape[1])])
    return a


def apply(dem, op):
    kind, k = op
    if kind == "flip":
        dem.flip(axis=k)
    elif k is None:
        dem.rot90()
    else:
        dem.rot90(k=k)


def run(s, ctx):
    h, w = s["h"], s["w"]
    m = c16.matrices(h, w, s["k"])
    n = np.arange(h * w).reshape(h, w)
    fl = {None: None, "mixed": ((n * 7 + 3) % 3 != 0).astype(float), "none": np.zeros((h, w))}[s["flags"]]
    base = ref.split(ref.code(2 * h, 2 * w, salt=s["k"]))
    path = ctx.scratch / "cal"
    c16.folder(path, m, fl)
    dic = ref.dic_of((h * 5 + w * 3 + s["k"]) % 48)
    for length in range(1, s["depth"] + 1):
        mids = OPS
        for rest in itertools.product(*([mids] * (length - 1))):
            seqs = [(tuple(s["first"]),) + rest]
            if length <= 2 or s["depth"] > 3:
                lasts = LAST
            else:
                lasts = [seqs[0][-1]]
            for last in lasts:
                seq = seqs[0][:-1] + (last,)
                if len(lasts) > 1 and seqs[0][-1] != OPS[0]:
                    continue
                sequence(ctx, s, path, m, fl, base, dic, seq)
    ctx.state(h, w, s["flags"])


def sequence(ctx, s, path, m, fl, base, dic, seq):
    dem = ml.Demodulator(str(path))
    wm = [[m[i, j] for j in range(4)] for i in range(3)]
    wf = fl
    fam = list(base)
    what = f"calibration {s['h']}x{s['w']} (flags {s['flags']})"
    for op in seq:
        what += f" {op}"
        apply(dem, op)
        wm = [[move(a, op) for a in row] for row in wm]
        wf = None if wf is None else move(wf, op)
        fam = [move(f, op) for f in fam]
        ctx.step()
    state(ctx, dem, wm, wf, what)
    ctx.state(np.array(wm), 0 if wf is None else wf)
    img = ref.merge(np.array(fam))
    im = ml.MicropolImage(img, angle_dic=dic)
    moved = im.demodulate(dem)
    want = c16.expected(ref.merge(base), m, fl, dic, False)
    for op in seq:
        want = [move(x, op) for x in want]
    ctx.same(moved.Stokes_vec, np.array(want), f"{what}: Stokes maps of the moved image")
    demo = im.demodulate(dem, demosaicing=True)
    ctx.same(demo.Stokes_vec, c16.expected(img, np.array(wm), wf, dic, True), f"{what}: demosaiced Stokes maps of the moved image")
    ctx.step(2)
    for _ in range(4):
        dem.rot90(1)
    state(ctx, dem, wm, wf, f"{what}, then 4 quarter turns")
    for ax in (0, 1):
        dem.flip(ax)
        dem.flip(ax)
        state(ctx, dem, wm, wf, f"{what}, then 2 flips along {ax}")
    fresh = ml.Demodulator(str(path))
    ctx.exact(fresh.mij, m, f"{what}: the stored matrices")
    ctx.trace()


def state(ctx, dem, wm, wf, what):
    ctx.exact(dem.mij, np.array(wm), f"{what}: matrices")
    if wf is None:
        ctx.check(dem.fit_found_flags is None, f"{what}: flags appeared")
    else:
        ctx.exact(dem.fit_found_flags, wf, f"{what}: flags")
