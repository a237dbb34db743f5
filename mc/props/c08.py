import numpy as np
import micropolarray as ml
from mc import ref

BOUNDS = {
    "quick": "every even shape 2..12 x 2..12 x 3 value patterns x modes mean/adjacent (24 assignments on the image), every unit impulse "
             "of shapes up to 8x8 x all modes incl. spline (family independence), 6 large shapes, 9 invalid mode names",
    "thorough": "every even shape 2..24 x 2..24, impulses up to 12x12, 8 large shapes",
}


def warmup():
    im = ml.MicropolImage(ref.code(4, 4))
    im.demosaic("mean")
    im.demosaic("adjacent")


def scenarios(tier, seed):
    q = tier == "quick"
    yield dict(t="bad")
    N = 12 if q else 24
    for h in range(2, N + 1, 2):
        for w in range(2, N + 1, 2):
            yield dict(t="frame", h=h, w=w)
    for h, w in [(66, 130), (258, 34), (34, 514), (2, 200), (200, 2), (402, 602), (1024, 1024), (1952, 1952)][:6 if q else 8]:
        yield dict(t="frame", h=h, w=w)
    N = 8 if q else 12
    for h in range(2, N + 1, 2):
        for w in range(2, N + 1, 2):
            yield dict(t="imp", h=h, w=w)


def run(s, ctx):
    if s["t"] == "bad":
        for m in ("", "Mean", "linear", "bilinear", "none", "nearest", "adjacent ", "ADJACENT", "3"):
            d = ref.code(4, 6)
            ctx.raises(ValueError, lambda: ml.demosaic(d, option=m), f"demosaic mode {m!r}")
            for pre in (None, "mean", "adjacent"):
                im = ml.MicropolImage(d)
                if pre:
                    im.demosaic(pre)
                S = np.array(im.Stokes_vec)
                ctx.raises(ValueError, lambda: im.demosaic(m), f"image demosaic mode {m!r}")
                ctx.exact(im.data, d, "data after a rejected mode")
                ctx.exact(im.Stokes_vec, S, "Stokes maps after a rejected mode")
                ctx.step()
        ctx.trace()
        return
    h, w = s["h"], s["w"]
    if s["t"] == "imp":
        for y in range(h):
            for x in range(w):
                d = ref.impulse(h, w, y, x)
                fam = (y % 2) * 2 + x % 2
                for m in ("mean", "adjacent", "spline"):
                    if m == "spline" and min(h, w) < 4:
                        continue
                    got = np.asarray(ml.demosaic(d, option=m))
                    ctx.check(got.shape == (4, h, w), f"{m} demosaicing of {h}x{w}: shape {got.shape}")
                    for k in range(4):
                        if k != fam:
                            ctx.check(not np.any(got[k]), f"{m}: pixel [{y},{x}] of family {fam} leaks into demosaiced image {k}")
                    ctx.check(np.any(got[fam] != 0), f"{m}: pixel [{y},{x}] is not used")
                    if m != "spline":
                        ctx.same(got, ref.demosaic(d, m), f"{m}: impulse [{y},{x}] in {h}x{w}", rtol=1e-13)
                    ctx.step()
                    ctx.state(h, w, y, x, m)
                ctx.trace()
        return
    for kind in ("code", "signed", "holes"):
        d = ref.frame(kind, h, w)
        keep = d.copy()
        for m in ("mean", "adjacent"):
            want = ref.demosaic(d, m)
            ctx.same(ml.demosaic(d, option=m), want, f"{m} demosaicing of {kind} {h}x{w}", rtol=1e-13)
            ctx.exact(d, keep, "frame passed to demosaic")
            ctx.step()
            for k in (range(24) if d.size <= 150 else [(h + w) % 24]):
                dic = ref.dic_of(k)
                im = ml.MicropolImage(d, angle_dic=dic)
                r = im.demosaic(m) if m == "mean" or k % 2 else im.demosaic()
                for img in [im] + ([r] if r is not None and r is not im else []):
                    what = f"{m} {kind} {h}x{w} orientations {dic}: "
                    ctx.same(img.demosaiced_images, want, what + "demosaiced images", rtol=1e-13)
                    ctx.same(img.Stokes_vec, ref.stokes(want, dic), what + "Stokes maps", rtol=1e-12)
                    ctx.check(img.I.data.shape == (h, w) and img.pB.data.shape == (h, w), what + "size of the parameter maps")
                    S = np.array([img.I.data, img.Q.data, img.U.data])
                    ctx.same(img.DoLP.data, ref.dolp(S), what + "DoLP", rtol=1e-9)
                    ctx.exact(img.data, keep, what + "data changed")
                ctx.step()
                ctx.trace()
                ctx.state(kind, h, w, m, k)
                ctx.outcome(want[:, :3, :3])
        if min(h, w) >= 4 and d.size < 20000:
            got = np.asarray(ml.demosaic(d, option="spline"))
            ctx.check(got.shape == (4, h, w) and bool(np.all(np.isfinite(got))), f"spline demosaicing of {h}x{w}: {got.shape}")
            im = ml.MicropolImage(d)
            im.demosaic("spline")
            ctx.same(im.demosaiced_images, got, "spline demosaiced images")
            ctx.same(im.Stokes_vec, ref.stokes(got, dict(im.angle_dic)), "spline Stokes maps")
            ctx.step()
