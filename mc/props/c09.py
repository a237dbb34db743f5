import numpy as np
import micropolarray as ml
from mc import ref

BOUNDS = {
    "quick": "plain images: every shape 1..6 x 1..6 x every shift from -(size+2) to size+2 in both axes x missing in {default, -1.5, NaN}; "
             "micro-polarizer images: every even shape 2..8 x 2..8 x every shift beyond the image in both axes x 3 missing values; "
             "pixel types u1, i2, f4; large shapes",
    "thorough": "plain 1..10 x 1..10; micro-polarizer 2..14 x 2..14",
}


def warmup():
    ml.MicropolImage(ref.code(4, 4)).shift(1, 1)
    im = ml.Image(ref.code(4, 4))
    im.shift(1, 1)
    im.shift(1, 1, missing=2)
    im.shift(1, 1, missing=-1.5)


def scenarios(tier, seed):
    q = tier == "quick"
    N = 6 if q else 10
    for h in range(1, N + 1):
        for w in range(1, N + 1):
            yield dict(t="plain", h=h, w=w)
    N = 8 if q else 14
    for h in range(2, N + 1, 2):
        for w in range(2, N + 1, 2):
            yield dict(t="mp", h=h, w=w)
    for dt in ("u1", "i2", "f4", ">f8"):
        yield dict(t="plain", h=3, w=4, dt=dt)
        yield dict(t="mp", h=4, w=6, dt=dt)
    for h, w in [(66, 34), (2, 130), (258, 130)]:
        yield dict(t="mp", h=h, w=w, some=1)
        yield dict(t="plain", h=h + 1, w=w, some=1)


def run(s, ctx):
    h, w = s["h"], s["w"]
    mp = s["t"] == "mp"
    dt = s.get("dt", "f8")
    d = ref.frame("int", h, w) % 120 if dt != "f8" else ref.code(h, w)
    d = d.astype(dt)
    keep = d.copy()
    dic = ref.dic_of((h + 3 * w) % 24)
    im = ml.MicropolImage(d, angle_dic=dic) if mp else ml.Image(d)
    if mp:
        im.header["MYCARD"] = 3
    H, W = (h // 2, w // 2) if mp else (h, w)
    ys, xs = range(-H - 2, H + 3), range(-W - 2, W + 3)
    if s.get("some"):
        ys, xs = [0, 1, -1, H - 1, 1 - H, H, -H, 3 * H, -3 * H], [0, 1, -1, W - 1, 1 - W, W, -W, 4 * W]
    for y in ys:
        for x in xs:
            for missing in (None, -1.5, float("nan"), 7):
                kw = {} if missing is None else dict(missing=missing)
                if dt != "f8" and missing == 7:
                    continue
                r = im.shift(y, x, **kw)
                m = 0.0 if missing is None else missing
                want = ref.shift_mp(d, y, x, m) if mp else ref.shift_fast(d, y, x, m)
                what = f"{s['t']} {h}x{w} ({dt}) shifted by ({y}, {x}), missing {missing}: "
                ctx.exact(r.data, want, what + "data")
                if mp:
                    ctx.exact(r.Stokes_vec, ref.stokes(ref.split(want), dic), what + "Stokes maps")
                    ctx.check(dict(r.angle_dic) == dic, what + "orientations")
                ctx.check(r is not im and (r.height, r.width) == (h, w), what + "dimensions")
                ctx.step()
                ctx.trace()
                ctx.state(s["t"], h, w, y, x, str(missing), dt)
                ctx.outcome(want[:3, :3])
    ctx.exact(im.data, keep, "source image after shifts")
    ctx.exact(d, keep, "array after shifts")
