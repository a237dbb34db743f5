"""Explicit enumeration of Stokes states and pixel errors through the real error propagation."""
import itertools
import os

import numpy as np
import micropolarray as ml
from mc import ref
from mc.core import Violation
from mc.props.c16 import folder, matrices

BOUNDS = {
    "quick": "all (I, Q, U) over 8 x 9 x 9 values of both signs, 0 included and five orders of magnitude, one superpixel each, x all 4^4 tuples of pixel errors "
             "x position-coded matrices; every single matrix element and pixel error on its own",
    "thorough": "all 6^4 tuples of pixel errors, 3 magnitudes of the whole frame",
}
I = (1.0, 2.5, 100.0, 4095.0, -3.0, 0.25, 1e6, 0.0)
V = (0.0, 1.0, -1.0, 0.5, -2.5, 100.0, -3000.0, 1e-3, -1e-3)
SIG = (0.0, 0.5, 3.0, 1000.0)
SIG6 = SIG + (1e-3, -2.0)


def stokes_frame(scale, dic):
    t = np.array(list(itertools.product(I, V, V))) * scale
    n = len(t)  # 648
    hs, ws = 18, 36
    S = t.T.reshape(3, hs, ws)
    f = np.zeros((4, hs, ws))
    f[dic[0]], f[dic[90]] = (S[0] + S[1]) / 2, (S[0] - S[1]) / 2
    f[dic[45]], f[dic[-45]] = (S[0] + S[2]) / 2, (S[0] - S[2]) / 2
    return S, ref.merge(f)


def scenarios(tier, seed):
    q = tier == "quick"
    sig = SIG if q else SIG6
    for scale in (1.0,) if q else (1.0, 1e-6, 1e6):
        for a in range(len(sig)):
            for b in range(len(sig)):
                yield dict(t="grid", a=a, b=b, n=len(sig), scale=scale, k=seed + 4 * a + b)
    for i in range(3):
        for j in range(4):
            yield dict(t="single", i=i, j=j, k=seed)


def first_order(S, sg):
    Is, Q, U = S
    z = Q + 1j * U
    h = 1e-200
    with np.errstate(all="ignore"):
        pb = np.abs(z)
        # derivatives by complex steps: no formula for them is written down
        f = lambda q, u: np.sqrt(q * q + u * u)
        dq = np.imag(f(Q + 1j * h, U + 0j)) / h
        du = np.imag(f(Q + 0j, U + 1j * h)) / h
        # the sign of the complex root depends on its branch, its square does not
        vpb = (dq * sg[1]) ** 2 + (du * sg[2]) ** 2
        g = lambda i, q, u: f(q, u) / i
        gi = np.imag(g(Is + 1j * h * np.abs(Is), Q + 0j, U + 0j)) / (h * np.abs(Is))
        gq = np.imag(g(Is + 0j, Q + 1j * h, U + 0j)) / h
        gu = np.imag(g(Is + 0j, Q + 0j, U + 1j * h)) / h
        vd = (gi * sg[0]) ** 2 + (gq * sg[1]) ** 2 + (gu * sg[2]) ** 2
        # 0.5*arg(z) = 0.5*Im log z
        va = (0.5 * np.imag(1 / z) * sg[1]) ** 2 + (0.5 * np.imag(1j / z) * sg[2]) ** 2
    return np.sqrt(vpb), np.sqrt(vd), np.sqrt(va), pb


def relclose(ctx, got, want, where, what):
    ctx.evaluations += 1
    got = np.asarray(got)
    if got.shape != want.shape:
        raise Violation(f"{what}: shape {got.shape}")
    g, w = got[where], want[where]
    if not np.all(np.isfinite(g)):
        k = np.argwhere(where)[np.argwhere(~np.isfinite(g))[0][0]]
        raise Violation(f"{what}: not finite at superpixel {k.tolist()}")
    bad = np.abs(g - w) > 1e-7 * np.abs(w) + 1e-300
    if bad.any():
        n = int(np.argmax(bad))
        raise Violation(f"{what}: {g[n]} instead of {w[n]} at superpixel {np.argwhere(where)[n].tolist()}")


def decide(ctx, scale, err, m, dem, k, what):
    dic = ref.dic_of(k % 48)
    S, d = stokes_frame(scale, dic)
    im = ml.MicropolImage(d, angle_dic=dic)
    Sv = np.array(im.Stokes_vec)
    e0 = err.copy()
    r = ml.MicropolImageError(im, err, dem)
    ctx.exact(err, e0, f"{what}: pixel errors given")
    ctx.exact(im.data, d, f"{what}: image given")
    ctx.exact(im.Stokes_vec, Sv, f"{what}: Stokes maps given")
    ctx.exact(dem.mij, m, f"{what}: matrices given")
    e = ref.split(err)
    sg = np.sqrt(np.array([sum(m[i, j] ** 2 * e[j] ** 2 for j in range(4)) for i in range(3)]))
    ctx.check(np.shape(r.sigma_S) == sg.shape, f"{what}: Stokes errors have shape {np.shape(r.sigma_S)}")
    everywhere = np.ones(S[0].shape, bool)
    for i, n in enumerate("IQU"):
        relclose(ctx, r.sigma_S[i], sg[i], everywhere, f"{what}: error on {n}")
    pb_, d_, a_, pb = first_order(Sv, sg)
    ok = pb != 0
    relclose(ctx, r.sigma_pB, pb_, ok, f"{what}: error on pB")
    relclose(ctx, r.sigma_DoLP, d_, ok & (Sv[0] != 0), f"{what}: error on DoLP")
    relclose(ctx, r.sigma_AoLP, a_, ok, f"{what}: error on AoLP")
    ctx.step(S[0].size)
    ctx.trace()
    ctx.state(what)
    ctx.states.update(hash((what, n)) & (2 ** 64 - 1) for n in range(S[0].size))
    ctx.outcome(np.round(np.asarray(r.sigma_pB), 6))


def run(s, ctx):
    k = s["k"]
    if s["t"] == "grid":
        sig = SIG6[:s["n"]] if s["n"] == 6 else SIG
        m = matrices(18, 36, k)
        dem = folder(ctx.scratch / "d", m, None if k % 2 else np.zeros((18, 36)))
        for c in range(s["n"]):
            for e in range(s["n"]):
                v = [sig[s["a"]], sig[s["b"]], sig[c], sig[e]]
                err = np.array(ref.merge([np.full((18, 36), q) for q in v])) * s["scale"]
                decide(ctx, s["scale"], err, m, dem, k + c, f"pixel errors {v}, scale {s['scale']}")
        err = np.abs(ref.code(36, 72, salt=k)) / 100
        decide(ctx, s["scale"], err, m, dem, k, f"irregular pixel errors, scale {s['scale']}, {k}")
    else:
        i, j = s["i"], s["j"]
        m = np.zeros((3, 4, 18, 36))
        m[i, j] = (ref.code(18, 36, salt=k) - 900) / 100
        dem = folder(ctx.scratch / "d", m, None)
        for q in range(4):
            f = np.zeros((4, 18, 36))
            f[q] = 2.0
            decide(ctx, 1.0, ref.merge(f), m, dem, k, f"only matrix element {i}{j} and errors of pixels {q}")
