import numpy as np
import micropolarray as ml
from mc import ref

BOUNDS = {
    "quick": "all 100 ordered value pairs over 10 values in one frame x 4 operators x image/number/numpy-scalar/array operands x plain "
             "and micro-polarizer images x 12 pixel type pairs x 24 assignments (float64); frame shapes 2..8; repeated 3 times over "
             "differently poisoned memory",
    "thorough": "same with 48 assignments and every even shape 2..16, 20 type pairs",
}
VALS = (0.0, 1.0, -3.0, 0.5, 4095.0, 65535.0, 2.0 ** -20, -1.0e9, 7.0, -0.25)
IVALS = (0, 1, 2, 3, 5, 7, 8, 9, 10, 11)  # sums, products fit int8/uint8
OPS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b}
TYPES = ("f8", "f4", "u2", "i4", ">f8", "u1", "i8", ">i2", "i1", "u8")


def warmup():
    ml.MicropolImage(ref.code(4, 4)) / 2


def model(op, a, b):
    a = np.asarray(a, dtype=float)
    b = np.broadcast_to(np.asarray(b, dtype=float), a.shape)
    if op != "/":
        return OPS[op](a, b)
    out = np.zeros(a.shape)
    out[b != 0] = a[b != 0] / b[b != 0]
    return out


def scenarios(tier, seed):
    q = tier == "quick"
    for cls in ("Image", "Micropol"):
        for op in "+-*/":
            for k in (range(24 if q else 48) if cls == "Micropol" else [0]):
                yield dict(cls=cls, op=op, k=k, ta="f8", tb="f8", shape=None)
            for ta in TYPES:
                for tb in ((ta, "f8", "u2") if q else TYPES):
                    yield dict(cls=cls, op=op, k=5, ta=ta, tb=tb, shape=None)
            n = 8 if q else 16
            for h in range(2, n + 1, 2):
                for w in range(2, n + 1, 2):
                    yield dict(cls=cls, op=op, k=(h * 5 + w) % 24, ta="f8", tb="f8", shape=[h, w])


def poison(shape, v):
    junk = [np.full(shape, v) for _ in range(40)]
    del junk


def run(s, ctx):
    op, k = s["op"], s["k"]
    fl = s["ta"].lstrip("<>")[0] == "f" and s["tb"].lstrip("<>")[0] == "f"
    vals = VALS if fl and "4" not in s["ta"] + s["tb"] else (IVALS if not fl else (0, 1, -3, 0.5, 4095, 64, 0.125, -7, 2, 9))
    if s["shape"] is None:
        n = len(vals)
        a = np.repeat(np.array(vals), n).reshape(n, n)
        b = np.tile(np.array(vals), n).reshape(n, n)
        if not fl and op == "-":  # representable results only
            a, b = np.maximum(a, b), np.minimum(a, b)
    else:
        h, w = s["shape"]
        a = ref.code(h, w)
        b = ref.frame("holes", h, w, 5)
    a = a.astype(s["ta"])
    b = b.astype(s["tb"])
    dic = ref.dic_of(k)
    if s["cls"] == "Image":
        A, B = ml.Image(a), ml.Image(b)
    else:
        A, B = ml.MicropolImage(a, angle_dic=dic), ml.MicropolImage(b, angle_dic=ref.dic_of((k + 7) % 24))
        A.header["MYCARD"] = ("left", "custom card")
        A.header["EXPTIME"] = 0.25
        A.header["NUMCARD"] = 42
        B.header["OTHER"] = "right"
        B.header["MYCARD"] = "right"
    rt = 1e-12 if s["ta"] != "f4" and s["tb"] != "f4" else 1e-6
    what = f"{s['cls']}({s['ta']}) {op} "
    operands = [("image", B, b)]
    operands.append(("array", b.copy(), b))
    nums = [v for v in vals if not (op == "-" and not fl)] or [0]
    for v in nums:
        v = float(v) if fl else int(v)
        operands.append((f"number {v!r}", v, v))
        operands.append((f"numpy number {v!r}", np.float64(v), v))
    for name, operand, raw in operands:
        want = model(op, a, raw)
        results = []
        for fill in (0.0, 1e300, np.nan):
            poison(a.shape, fill)
            results.append(OPS[op](A, operand))
        for r in results:
            ctx.check(type(r) is type(A), f"{what}{name}: result is a {type(r).__name__}")
            ctx.same(r.data, want, what + name, rtol=rt)
            if op == "/":
                z = np.broadcast_to(np.asarray(raw) == 0, a.shape)
                ctx.check(bool(np.all(np.asarray(r.data)[z] == 0)), f"{what}{name}: not 0 where the divisor is 0")
            ctx.check((r.height, r.width) == a.shape, f"{what}{name}: height/width")
            ctx.check((r.header["NAXIS2"], r.header["NAXIS1"]) == a.shape, f"{what}{name}: NAXIS cards")
            if s["cls"] != "Image":
                ctx.check(dict(r.angle_dic) == dic, f"{what}{name}: orientations {r.angle_dic} instead of {dic}")
                ctx.same(r.Stokes_vec, ref.stokes(ref.split(want), dic), f"{what}{name}: Stokes maps", rtol=max(rt, 1e-12))
                ctx.check(r.header.get("MYCARD") == "left" and r.header.get("EXPTIME") == 0.25 and r.header.get("NUMCARD") == 42
                          and r.header.comments["MYCARD"] == "custom card",
                          f"{what}{name}: header cards of the left operand are not kept")
                ctx.check("OTHER" not in r.header, f"{what}{name}: header card of the right operand")
            ctx.step()
        for r in results[1:]:
            ctx.check(np.array_equal(np.asarray(results[0].data), np.asarray(r.data)), f"{what}{name}: result is not repeatable")
        ctx.trace()
        ctx.state(s["cls"], op, k, s["ta"], s["tb"], s["shape"], name)
        ctx.outcome(np.asarray(results[0].data).ravel()[:30])
    ctx.exact(A.data, a, what + "left operand")
    ctx.exact(B.data, b, what + "right operand")
    ctx.check(A + 0 is not A, "sum is the operand itself")
