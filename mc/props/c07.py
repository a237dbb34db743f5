import numpy as np
import micropolarray as ml
from mc import ref

BOUNDS = {
    "quick": "plain images: every shape 1..12 x 1..12 x binning 1..6; micro-polarizer images: every even shape 2..20 x 2..20 x binning "
             "1..6; all unit impulses of shapes up to 8x8; large shapes; binnings -5..0; trim_to_match_binning on every 0..40 x binning 1..9",
    "thorough": "plain: 1..24 x 1..24 x 1..9; micro-polarizer: 2..40 x 2..40 x 1..9; impulses up to 12x12",
}


def warmup():
    ml.MicropolImage(ref.code(4, 4)).rebin(2)
    ml.Image(ref.code(4, 4)).rebin(2)


def scenarios(tier, seed):
    q = tier == "quick"
    for n in range(-5, 1):
        yield dict(t="bad", n=n)
    N, B = (12, 6) if q else (24, 9)
    for h in range(1, N + 1):
        for w in range(1, N + 1):
            yield dict(t="plain", h=h, w=w, ns=list(range(1, B + 1)), imp=False)
    N = 20 if q else 40
    for h in range(2, N + 1, 2):
        for w in range(2, N + 1, 2):
            yield dict(t="mp", h=h, w=w, ns=list(range(1, B + 1)), imp=False)
    N = 8 if q else 12
    for h in range(2, N + 1, 2):
        for w in range(2, N + 1, 2):
            yield dict(t="mp", h=h, w=w, ns=[1, 2, 3], imp=True)
    for h in range(1, N + 1, 2):
        for w in range(1, N + 1, 3):
            yield dict(t="plain", h=h, w=w, ns=[1, 2, 3], imp=True)
    for h, w in [(66, 130), (258, 34), (34, 514), (130, 130), (600, 402)]:
        for t in ("mp", "plain"):
            yield dict(t=t, h=h, w=w, ns=[1, 2, 3, 4, 5, 7, 8, 16], imp=False)
    yield dict(t="trim")


def run(s, ctx):
    t = s["t"]
    if t == "bad":
        for cls in (ml.Image, ml.MicropolImage):
            im = cls(ref.code(6, 8))
            ctx.raises(ValueError, lambda: im.rebin(s["n"]), f"{cls.__name__}.rebin({s['n']})")
            ctx.exact(im.data, ref.code(6, 8), "image after a rejected binning")
            ctx.step()
        ctx.trace()
        ctx.state("bad", s["n"])
        return
    if t == "trim":
        for h in range(0, 41):
            for w in (h, 40 - h, 17):
                for n in range(1, 10):
                    got = ml.trim_to_match_binning(h, w, n)
                    ctx.check(tuple(int(v) for v in got) == (h - h % n, w - w % n), f"trim_to_match_binning({h}, {w}, {n}) = {got}")
                    ctx.step()
        ctx.trace()
        return
    h, w = s["h"], s["w"]
    mp = t == "mp"
    if s["imp"]:
        frames = [(f"impulse [{y},{x}]", ref.impulse(h, w, y, x)) for y in range(h) for x in range(w)]
    else:
        frames = [(k, ref.frame(k, h, w)) for k in ("code", "signed", "holes")]
        # counts above 2**24 (long stacks), all sums exact in double precision
        frames.append(("large", np.floor(ref.code(h, w)) + 2.0 ** 36))
        frames.append(("large int", np.floor(ref.code(h, w)).astype(np.int64) + (1 << 30)))
    for name, d in frames:
        k = (h * 7 + w * 3) % 24
        im = ml.MicropolImage(d, angle_dic=ref.dic_of(k)) if mp else ml.Image(d)
        for n in s["ns"]:
            what = f"{'micro-polarizer' if mp else 'plain'} {h}x{w} ({name}) rebinned by {n}: "
            want = ref.rebin_mp(d, n) if mp else ref.rebin(d, n)
            if want.size == 0:
                try:
                    im.rebin(n)  # has to terminate
                except Exception:
                    pass
                ctx.step()
                continue
            r = im.rebin(n)
            ctx.same(r.data, want, what + "data", rtol=1e-13)
            ctx.check((r.height, r.width) == want.shape and (r.header["NAXIS2"], r.header["NAXIS1"]) == want.shape,
                      what + "dimensions")
            if mp:
                ctx.same(r.Stokes_vec, ref.stokes(ref.split(want), ref.dic_of(k)), what + "Stokes maps", rtol=1e-12)
                ctx.check(dict(r.angle_dic) == ref.dic_of(k), what + "orientations")
            if n == 1:
                ctx.exact(r.data, d, what + "data (identity)")
            ctx.check(r is not im, what + "returns the image itself")
            ctx.exact(im.data, d, what + "source")
            ctx.step()
            ctx.trace()
            ctx.state(t, h, w, n, name)
            ctx.outcome(want.shape, want.ravel()[:4])
