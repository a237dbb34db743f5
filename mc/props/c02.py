import itertools

import numpy as np
import micropolarray as ml
from mc import ref

BOUNDS = {
    "quick": "all 4096 superpixel value tuples over 8 values (zero, negative, tiny, huge included) x 24 orientation assignments; "
             "every even shape 2..10 x 2..10 x 4 value patterns x 24 assignments; every single-pixel change of 4x6 frames over 5 values",
    "thorough": "all 14641 superpixel tuples over 11 values x 48 assignments; every even shape 2..20 x 2..20 x 6 patterns x 48 "
                "assignments; every single-pixel change of 6x8 frames over 8 values",
}
V11 = ref.VALUES + (2.0, 7.25, -0.125)
KINDS = ("code", "signed", "holes", "int", "huge", "tiny")


def warmup():
    ml.MicropolImage(ref.code(4, 4))


def scenarios(tier, seed):
    q = tier == "quick"
    nd = 24 if q else 48
    for k in range(nd):
        yield dict(t="tuples", k=k, vals=list(ref.VALUES if q else V11))
    n = 10 if q else 20
    for h in range(2, n + 1, 2):
        for w in range(2, n + 1, 2):
            for kind in KINDS[:4 if q else 6]:
                yield dict(t="frame", h=h, w=w, kind=kind, nd=nd, salt=seed % 11)
    for h, w in [(66, 34), (2, 130), (258, 66)] + ([] if q else [(1024, 1024)]):
        yield dict(t="frame", h=h, w=w, kind="signed", nd=2, salt=seed % 11)
    h, w = (4, 6) if q else (6, 8)
    for y in range(h):
        for x in range(w):
            yield dict(t="poke", h=h, w=w, y=y, x=x, vals=list(ref.VALUES[:5] if q else ref.VALUES))


def compare(ctx, im, d, dic, what):
    fam = ref.split(d)
    S = ref.stokes(fam, dic)
    tol = 1e-14 * np.sum(np.abs(fam), axis=0)  # pixel by pixel: the maps span many orders of magnitude
    for k, (name, p) in enumerate((("I", im.I), ("Q", im.Q), ("U", im.U))):
        ctx.same(p.data, S[k], f"{what}: {name}", atol=tol)
        ctx.check(p.ID == name, f"{what}: identifier of {name} is {p.ID!r}")
    ctx.same(im.Stokes_vec, S, f"{what}: Stokes vector", atol=tol)
    S = np.array([im.I.data, im.Q.data, im.U.data])
    pb = ref.pb(S)
    got = np.asarray(im.pB.data, dtype=float)
    ctx.check(got.shape == pb.shape and np.allclose(got, pb, rtol=1e-12, atol=0), f"{what}: pB")
    dl = ref.dolp(S)
    got = np.asarray(im.DoLP.data, dtype=float)
    ctx.check(got.shape == dl.shape and np.allclose(got, dl, rtol=1e-12, atol=0), lambda: f"{what}: DoLP")
    ctx.check(np.all(got[S[0] == 0] == 0), f"{what}: DoLP is not 0 where I is 0")
    al = np.asarray(im.AoLP.data, dtype=float)
    ctx.check(al.shape == S[0].shape and bool(np.all((al >= -np.pi / 2) & (al <= np.pi / 2))), f"{what}: AoLP out of range")
    ctx.check(np.allclose(al, ref.aolp(S), rtol=0, atol=1e-12), f"{what}: AoLP")
    lst = im.polparam_list
    ctx.check([p.ID for p in lst] == ["I", "Q", "U", "pB", "AoLP", "DoLP"], f"{what}: parameter list {[p.ID for p in lst]}")
    ctx.outcome(np.round(al.ravel()[:16], 6))


def run(s, ctx):
    if s["t"] == "tuples":
        d = ref.tuples_frame(s["vals"])
        dic = ref.dic_of(s["k"])
        im = ml.MicropolImage(d, angle_dic=dic)
        compare(ctx, im, d, dic, f"all tuples, orientations {dic}")
        n = (d.shape[0] // 2) ** 2
        ctx.step(n)
        ctx.trace()
        ctx.count("superpixel_tuples", n)
        for r in range(0, d.shape[0], 16):
            ctx.state("t", s["k"], r)
        # the same through a file and through a list of one file
        return
    h, w = s["h"], s["w"]
    if s["t"] == "frame":
        d = ref.frame(s["kind"], h, w, s["salt"])
        for k in range(s["nd"]):
            dic = ref.dic_of(k)
            im = ml.MicropolImage(d, angle_dic=dic)
            compare(ctx, im, d, dic, f"{s['kind']} {h}x{w}, orientations {dic}")
            ctx.step()
            ctx.trace()
            ctx.state(d[:8, :8], k, h, w)
        return
    base = ref.code(h, w)
    y, x = s["y"], s["x"]
    for k in range(24):
        dic = ref.dic_of(k)
        ref_im = ml.MicropolImage(base, angle_dic=dic)
        for v in s["vals"]:
            d = base.copy()
            d[y, x] = v
            im = ml.MicropolImage(d, angle_dic=dic)
            compare(ctx, im, d, dic, f"pixel [{y},{x}]={v}, orientations {dic}")
            others = np.ones((h // 2, w // 2), bool)
            others[y // 2, x // 2] = False
            for a, b in zip(im.polparam_list, ref_im.polparam_list):
                ctx.check(np.array_equal(a.data[others], b.data[others]),
                          f"changing pixel [{y},{x}] changes {a.ID} of another superpixel")
            ctx.step()
            ctx.trace()
            ctx.state("poke", y, x, v, k)
