import numpy as np
import micropolarray as ml
from mc import ref

BOUNDS = {
    "quick": "every even shape 2..12 x 2..12 plus 6 large shapes x 5 value patterns x 24 orientation assignments (both key orders); "
             "every odd shape up to 9x9; merge of every family shape 1..6 x 1..6",
    "thorough": "every even shape 2..24 x 2..24 plus 9 large shapes x 7 value patterns x 48 assignments; every odd shape up to 15x15; "
                "merge of every family shape 1..12 x 1..12",
}
KINDS = ("code", "signed", "holes", "int", "zero", "huge", "tiny")
BIG = [(2, 64), (64, 2), (34, 18), (66, 130), (258, 130), (16, 514), (1026, 6), (130, 770), (1024, 1024)]


def warmup():
    im = ml.MicropolImage(ref.code(4, 4))
    ml.merge_polarizations(ml.split_polarizations(im.data))


def scenarios(tier, seed):
    n, nk, nb, nodd, nm = (12, 5, 6, 9, 6) if tier == "quick" else (24, 7, 9, 15, 12)
    shapes = [(h, w) for h in range(2, n + 1, 2) for w in range(2, n + 1, 2)] + BIG[:nb]
    for h, w in shapes:
        for kind in KINDS[:nk]:
            if kind == "zero" and (h, w) != (4, 6):
                continue
            yield dict(t="frame", h=h, w=w, kind=kind, salt=seed % 7, all=(kind == "code"))
    for h in range(1, nodd + 1):
        for w in range(1, nodd + 1):
            if h % 2 or w % 2:
                yield dict(t="odd", h=h, w=w)
    for h in range(1, nm + 1):
        for w in range(1, nm + 1):
            yield dict(t="merge", h=h, w=w)


def run(s, ctx):
    h, w = s["h"], s["w"]
    if s["t"] == "odd":
        d = ref.code(h, w)
        ctx.raises(ValueError, lambda: ml.split_polarizations(d), f"split of a {h}x{w} frame")
        ctx.raises(ValueError, lambda: ml.MicropolImage(d), f"MicropolImage of a {h}x{w} frame")
        ctx.step(2)
        ctx.trace()
        ctx.outcome("odd", h % 2, w % 2)
        return
    if s["t"] == "merge":
        fam = np.stack([ref.code(h, w, salt=100 * k) for k in range(4)])
        keep = fam.copy()
        m = ml.merge_polarizations(fam)
        ctx.exact(m, ref.merge(keep), f"merge of four {h}x{w} families")
        ctx.exact(ml.split_polarizations(m), keep, f"split of merged {h}x{w} families")
        ctx.exact(fam, keep, "families passed to merge")
        ctx.step(2)
        ctx.trace()
        ctx.state(m)
        return
    d = ref.frame(s["kind"], h, w, s["salt"])
    keep = d.copy()
    fam = ref.split(d)
    got = ml.split_polarizations(d)
    ctx.exact(got, fam, f"split of a {h}x{w} frame")
    ctx.exact(ml.merge_polarizations(np.asarray(got)), keep, f"merge of the split {h}x{w} frame")
    ctx.exact(d, keep, "frame passed to split")
    ctx.step(2)
    n = 48 if s["all"] else 24
    if d.size > 20000:
        n = 24 if s["all"] else 4
    for k in range(n):
        dic = ref.dic_of(k)
        im = ml.MicropolImage(d, angle_dic=dic)
        what = f"{h}x{w} image with orientations {dic}: "
        ctx.exact(im.data, keep, what + "data")
        ctx.exact(im.single_pol_subimages, fam, what + "families")
        for a, p in ((0, im.pol0), (45, im.pol45), (-45, im.pol_45), (90, im.pol90)):
            ctx.exact(p.data, fam[dic[a]], what + f"{a} degree sub-image")
            ctx.check(str(p.ID) == str(a), what + f"identifier {p.ID!r} of the {a} degree sub-image")
        ctx.check({int(a): int(b) for a, b in im.angle_dic.items()} == dic, what + f"angle_dic {im.angle_dic}")
        ctx.step()
        ctx.trace()
        ctx.state(s["kind"], h, w, sorted(dic.items()))
        ctx.outcome(fam[dic[0]][:4, :4])
