"""Exhaustive enumeration of all 2^24 byte triples of packed sensor files through the real parallel decoder."""
import itertools
import os

import numpy as np
from micropolarray.processing import convert
from mc import calib, fitsio

N = 1952
TRIPLES = N * N // 2  # per file
SPACE = 1 << 24
FILES = -(-SPACE // TRIPLES)
BOUNDS = {
    "quick": f"all 2^24 byte triples in {FILES} whole files; black files, white files, files black except around every one of the 32 part boundaries and except inside "
             "every part; 14 wrong sizes; averages of 1 to 3 files in all orders, list and single name, over an existing file, rejected names",
    "thorough": "additionally all triples in reversed order and rotated by 1/3 and 2/3 of the space; averages of up to 4 files; every wrong size within 100 of the right one",
}
MAX_WORKERS = 1
TIME_LIMIT = 600.0


def scenarios(tier, seed):
    q = tier == "quick"
    for k in ("black", "white", "edges", "middles", "first", "last", "alternating"):
        yield dict(t="special", kind=k)
    yield dict(t="sizes", q=q)
    yield dict(t="names")
    for rev, off in [(False, 0)] if q else [(False, 0), (True, 0), (False, SPACE // 3), (False, 2 * SPACE // 3)]:
        for f in range(FILES):
            yield dict(t="all", f=f, rev=rev, off=off)
    for n in (1, 2, 3) if q else (1, 2, 3, 4):
        yield dict(t="mean", n=n, k=seed)


def run(s, ctx):
    d = ctx.scratch / "packed"
    calib.fresh(d)
    os.makedirs(d)
    try:
        globals()["run_" + s["t"]](s, ctx, d)
    finally:
        calib.fresh(d)


def decode(raw):
    b = np.frombuffer(raw, dtype=np.uint8).astype(np.int64).reshape(-1, 3)
    p = np.empty((len(b), 2), dtype=np.int64)
    p[:, 0] = b[:, 0] * 16 + b[:, 1] // 16
    p[:, 1] = b[:, 2] * 16 + b[:, 1] % 16
    return p.reshape(N, N)


def put(d, name, raw):
    p = str(d / name)
    with open(p, "wb") as f:
        f.write(raw)
    return p


def decided(ctx, d, raw, what):
    p = put(d, "f.bin", raw)
    got = convert.nparr_from_binary(p)
    ctx.exact(got, decode(raw), what)
    ctx.step(TRIPLES)
    with open(p, "rb") as f:
        ctx.check(f.read() == raw, f"{what}: the file changed")


def run_all(s, ctx, d):
    k = (np.arange(TRIPLES, dtype=np.int64) + s["f"] * TRIPLES + s["off"]) % SPACE
    if s["rev"]:
        k = SPACE - 1 - k
    raw = np.stack([k >> 16, (k >> 8) & 255, k & 255], axis=1).astype(np.uint8).tobytes()
    decided(ctx, d, raw, f"triples {int(k[0])}..{int(k[-1])}")
    if not s["rev"] and not s["off"]:
        ctx.count("byte_triples", min(TRIPLES, SPACE - s["f"] * TRIPLES))
    for v in range(0, TRIPLES, 4096):
        ctx.state(s["f"], s["rev"], s["off"], v)
    ctx.trace()


def run_special(s, ctx, d):
    b = np.zeros((TRIPLES, 3), dtype=np.uint8)
    k = s["kind"]
    n = TRIPLES // 32
    if k == "white":
        b[:] = 255
    elif k == "edges":
        for c in range(32):
            b[c * n] = (c + 1, 2 * c + 3, 3 * c + 7)
            b[(c + 1) * n - 1] = (200 - c, 255 - 2 * c, c + 1)
    elif k == "middles":
        for c in range(32):
            b[c * n + n // 2 + c] = (c + 1, 77, 255 - c)
    elif k == "first":
        b[0] = (1, 2, 3)
    elif k == "last":
        b[-1] = (1, 2, 3)
    elif k == "alternating":
        b[::2] = (0, 16, 0)
        b[1::2] = (0, 1, 0)
    decided(ctx, d, b.tobytes(), f"{k} file")
    ctx.state(k)
    ctx.trace()


def run_sizes(s, ctx, d):
    full = 3 * TRIPLES
    sizes = [0, 1, 3, 96, full - 96, full - 3, full - 1, full + 1, full + 2, full + 3, full + 96, full // 2, 2 * full, N * N * 2]
    if not s["q"]:
        sizes += [full + k for k in range(-100, 101) if k]
    for n in sizes:
        p = put(d, "wrong.bin", bytes(n))
        ctx.raises(ValueError, lambda: convert.nparr_from_binary(p), f"file of {n} bytes")
        ctx.raises(ValueError, lambda: convert.convert_set([p], str(d / "o.fits"), N, N), f"conversion of a file of {n} bytes")
        ctx.check(not os.path.exists(d / "o.fits"), f"a file of {n} bytes was converted")
        ctx.step()
        ctx.state(n)
    ctx.trace()


def content(k):
    v = (np.arange(3 * TRIPLES, dtype=np.int64) * (7 + 2 * k) + 31 * k + (np.arange(3 * TRIPLES, dtype=np.int64) >> 8) * 3) % 256
    return v.astype(np.uint8).tobytes()


def check_file(ctx, p, want, what):
    _, got = fitsio.read(p)
    ctx.check(got is not None and got.shape == want.shape, f"{what}: frame {None if got is None else got.shape}")
    ctx.same(got, want, what, rtol=1e-13)


def run_names(s, ctx, d):
    raw = content(1)
    p = put(d, "a.bin", raw)
    for bad in ("x", "x.bin", "x.fit", "fits", "x.fits.bin", "x.FITS_"):
        ctx.raises(ValueError, lambda: convert.convert_set([p], str(d / bad), N, N), f"output {bad}")
        ctx.check(not os.path.exists(d / bad), f"output {bad} written")
        ctx.step()
    for good in ("x.fits", "a.b.fits", "with space.fits"):
        convert.convert_set(p, str(d / good), N, N)
        check_file(ctx, str(d / good), decode(raw), f"output {good}")
        ctx.step()
        ctx.state(good)
    ctx.check(open(p, "rb").read() == raw, "the sensor file changed")
    ctx.trace()


def run_mean(s, ctx, d):
    raws = [content(s["k"] + k) for k in range(s["n"])]
    raws[0] = bytes(len(raws[0])) if s["n"] == 3 else raws[0]
    paths = [put(d, f"{'zab'[k % 3]}{k}.bin", r) for k, r in enumerate(raws)]
    want = sum(decode(r) for r in raws) / s["n"]
    for perm in itertools.permutations(range(s["n"])):
        convert.convert_set([paths[k] for k in perm], str(d / "m.fits"), N, N)
        check_file(ctx, str(d / "m.fits"), want, f"mean of {s['n']} files in order {perm}")
        ctx.step()
        ctx.state(s["n"], perm)
    if s["n"] > 1:
        convert.convert_set([paths[0], paths[0]], str(d / "m.fits"), N, N)
        check_file(ctx, str(d / "m.fits"), decode(raws[0]) * 1.0, "mean of the same file twice")
    ctx.trace()
