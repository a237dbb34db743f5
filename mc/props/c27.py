"""Explicit-state exploration of the process-wide default orientations: every sequence of operations up to a depth runs in its own forked process (fork at every node), against a model of the default
and of each image's assignment."""
import itertools
import os
import pickle

import numpy as np
import micropolarray as ml
from mc import calib, fitsio, ref
from mc.core import Violation
from mc.props import c16

BOUNDS = {
    "quick": "from a process in which no default was ever set (forked at every node): all sequences of length 2 over 29 operations (3 defaults and back to none, caller's dictionaries changed afterwards, "
             "creation from array/file/files with and without assignment, copies, 18 derivations) and of length 4 over 7 operations; after setting the default back to none: length 3 over 29 and 5 over 7 "
             "operations; all 48 assignments (both key orders) as default and as explicit assignment",
    "thorough": "forked: lengths 3 and 5; after setting back: length 4 over all 29 operations, length 7 over 7 operations",
}
TIME_LIMIT = 900.0
A, B, E = ref.dic_of(9), ref.dic_of(19), ref.dic_of(38)
POLARCAM = {0: 0, 45: 1, -45: 2, 90: 3}


class World:
    """The model next to the real objects: default, images with the assignment each must have."""

    def __init__(self, d):
        self.d = d
        self.default = dict(POLARCAM)
        self.images = []  # (image, expected assignment)
        self.n = 0
        self.given = []  # dictionaries handed over by the caller

    def frame(self):
        self.n += 1
        return ref.code(4, 4, salt=self.n) + 100

    def last(self):
        if not self.images:
            create(self)
        return self.images[-1]

    def add(self, im, dic):
        self.images = self.images[-6:] + [(im, dict(dic))]


def setter(dic):
    def op(w):
        g = dict(dic) if dic is not None else None
        ml.set_default_angles(g)
        w.default = dict(dic or POLARCAM)
        if g:
            w.given.append(g)
    return op


def polarcam(w):
    ml.set_default_angles(ml.PolarCam().angle_dic)
    w.default = dict(POLARCAM)


def scribble(w):
    """The caller reuses every dictionary handed over so far, and those of new camera objects."""
    for g in w.given:
        ks = list(g)
        vs = [g[k] for k in ks]
        for k, v in zip(ks, vs[1:] + vs[:1]):
            g[k] = v
    c = ml.PolarCam()
    c.angle_dic[0], c.angle_dic[90] = 3, 0


def create(w):
    w.add(ml.MicropolImage(w.frame()), w.default)


def explicit(w):
    g = dict(E)
    w.given.append(g)
    w.add(ml.MicropolImage(w.frame(), angle_dic=g), E)


def from_file(w):
    w.add(ml.MicropolImage(str(w.d / "0.fits")), w.default)


def from_files(w):
    w.add(ml.MicropolImage([str(w.d / "0.fits"), str(w.d / "1.fits")], angle_dic=dict(A)), A)


def with_dark(w):
    # dark and flat carry other assignments
    w.add(ml.MicropolImage(w.frame(), dark=ml.MicropolImage(np.ones((4, 4)), angle_dic=dict(B)), flat=ml.MicropolImage(np.full((4, 4), 2.0), angle_dic=dict(A))), w.default)


def copy(w):
    im, dic = w.last()
    w.add(ml.MicropolImage(im), dic)


def derive(f):
    def op(w):
        im, dic = w.last()
        w.add(f(im), dic)
    return op


def several(fs):
    """Several derivations of the same image."""
    def op(w):
        im, dic = w.last()
        for f in fs:
            w.add(f(im), dic)
    return op


def inplace(f):
    def op(w):
        im, dic = w.last()
        f(im)
    return op


def binary(f):
    def op(w):
        im, dic = w.last()
        other = ml.MicropolImage(np.asarray(im.data) + 1, angle_dic=dict(B if dic != B else A))
        w.add(f(im, other), dic)
        w.add(f(other, im), B if dic != B else A)
    return op


DEM = None

OPS = {
    "default A": setter(A), "default B": setter(B), "default none": setter(None), "default PolarCam": polarcam, "reuse": scribble,
    "create": create, "explicit": explicit, "file": from_file, "files": from_files, "dark and flat": with_dark, "copy": copy,
    "rebin": derive(lambda i: i.rebin(1)), "shift": derive(lambda i: i.shift(1, 0)), "rotate": derive(lambda i: i.rotate(90)), "congrid": derive(lambda i: i.congrid(4, 4)),
    "demosaic": inplace(lambda i: i.demosaic("mean")), "ifov": inplace(lambda i: i.correct_ifov()), "mask": inplace(lambda i: i.mask_occulter(2, 2, 1)),
    "subtract": inplace(lambda i: i.subtract_dark(ml.MicropolImage(np.ones((4, 4)), angle_dic=dict(E)))),
    "flat": inplace(lambda i: i.correct_flat(ml.MicropolImage(np.full((4, 4), 2.0), angle_dic=dict(E)))),
    "clean": derive(lambda i: i.clean_hot_pixels(ml.MicropolImage(np.ones((4, 4)), angle_dic=dict(E)))), "hot": derive(lambda i: ml.get_hot_pixels(i, 0.1)),
    "add": binary(lambda a, b: a + b), "subtract image": binary(lambda a, b: a - b), "multiply": binary(lambda a, b: a * b), "divide": binary(lambda a, b: a / b),
    "numbers": several([lambda i: i - 1, lambda i: i + 1, lambda i: i / 2, lambda i: i * 2.0]),
    "arrays": several([lambda i: i - np.ones((4, 4)), lambda i: i + np.ones((4, 4)), lambda i: i / np.full((4, 4), 2.0), lambda i: i * np.full((4, 4), 3)]),
    "demodulate": derive(lambda i: i.demodulate(DEM)),
}
SHORT = ("default A", "default B", "reuse", "create", "explicit", "copy", "numbers")


def scenarios(tier, seed):
    q = tier == "quick"
    for k in range(0, 48, 6):
        yield dict(t="all", k=k)
    for a in OPS:
        yield dict(t="tree", first=[a], ops=list(OPS), depth=2 if q else 3)
    for a in SHORT:
        yield dict(t="tree", first=[a], ops=list(SHORT), depth=4 if q else 5)
    for a in OPS:
        for b in OPS:
            yield dict(t="reset", first=[a, b], ops=list(OPS), depth=3 if q else 4)
    for a in SHORT:
        for b in SHORT:
            yield dict(t="reset", first=[a, b], ops=list(SHORT), depth=5 if q else 7)


def decide(ctx, w, hist):
    for k, (im, dic) in enumerate(w.images):
        what = f"after {hist}: image {k - len(w.images)}"
        ctx.check(dict(im.angle_dic) == dic, f"{what} has orientations {dict(im.angle_dic)}, expected {dic}")
        fam = ref.split(im.data)
        for ang, p in ((0, im.pol0), (45, im.pol45), (-45, im.pol_45), (90, im.pol90)):
            ctx.exact(p.data, fam[dic[ang]], f"{what}: pixels of orientation {ang}")
    ctx.step()
    ctx.state(tuple(sorted(w.default.items())), tuple(tuple(sorted(d.items())) for _, d in w.images), hist[-1])


def stokes(ctx, im, dic, what):
    S = np.asarray(im.Stokes_vec)
    fam = ref.demosaic(im.data, "mean") if S.shape[1:] == im.data.shape else ref.split(im.data)
    ctx.same(S, ref.stokes(fam, dic), f"{what}: Stokes maps", atol=1e-9 * max(1.0, np.abs(im.data).max()))


PLAIN = {"create", "explicit", "file", "files", "dark and flat", "demosaic", "ifov", "subtract", "flat", "clean", "hot", "add", "subtract image", "multiply", "divide", "numbers", "arrays", "rebin", "shift"}


def walk(ctx, w, hist, ops, depth, first):
    """Runs one operation in this process, then every continuation in a fork of it."""
    todo = [first[len(hist)]] if len(hist) < len(first) else ops
    for name in todo:
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            ans = None
            try:
                os.close(r)
                ctx.states, ctx.outcomes, ctx.transitions, ctx.evaluations, ctx.traces = set(), set(), 0, 0, 0
                h = hist + [name]
                try:
                    OPS[name](w)
                    decide(ctx, w, h)
                    if name in PLAIN:
                        stokes(ctx, w.images[-1][0], w.images[-1][1], f"after {h}")
                    if len(h) < depth:
                        walk(ctx, w, h, ops, depth, first)
                    else:  # what a new image gets now, without having looked before
                        create(w)
                        decide(ctx, w, h + ["create"])
                        ctx.traces += 1
                    ans = (None, None)
                except Violation as v:
                    ans = (str(v), v.key)
                except BaseException as e:  # noqa
                    ans = (f"after {h}: unexpected {type(e).__name__}: {e}", None)
                with os.fdopen(wr, "wb") as f:
                    pickle.dump((ans, ctx.states, ctx.transitions, ctx.evaluations, ctx.traces), f)
            finally:
                os._exit(0)
        os.close(wr)
        with os.fdopen(r, "rb") as f:
            raw = f.read()
        os.waitpid(pid, 0)
        if not raw:
            raise Violation(f"after {hist + [name]}: the process died")
        ans, st, tr, ev, n = pickle.loads(raw)
        ctx.states |= st
        ctx.transitions += tr
        ctx.evaluations += ev
        ctx.traces += n
        if ans[0]:
            raise Violation(*ans)


def replay(ctx, d, seq):
    """The whole sequence in this process; the state is decided at its end, shorter ones decide the rest."""
    ml.set_default_angles(None)
    w = World(d)
    try:
        for name in seq:
            OPS[name](w)
        decide(ctx, w, seq)
        if seq[-1] in PLAIN:
            stokes(ctx, w.images[-1][0], w.images[-1][1], f"after {seq}")
        create(w)
        decide(ctx, w, seq + ["create"])
    except Violation:
        raise
    except Exception as e:  # noqa
        raise Violation(f"after {seq}: unexpected {type(e).__name__}: {e}")
    ctx.trace()


def warmup():
    """Compiles the kernels in a throw-away process state: nothing here creates an image."""
    f = np.ones((4, 4))
    ml.demosaic(f, "mean")
    ml.demosaic(f)
    ml.merge_polarizations(ml.split_polarizations(f))


def run(s, ctx):
    global DEM
    d = ctx.scratch / "files"
    if not d.exists():
        d.mkdir()
        for k in range(2):
            fitsio.write(d / f"{k}.fits", ref.code(4, 4, salt=50 + k))
        c16.folder(d / "cal", c16.matrices(2, 2, 1), None)
    if DEM is None:
        DEM = ml.Demodulator(str(d / "cal"))
    w = World(d)
    if s["t"] == "tree":
        walk(ctx, w, [], s["ops"], s["depth"], s["first"])
        return
    if s["t"] == "reset":
        n = s["depth"] - len(s["first"])
        for suffix in itertools.product(s["ops"], repeat=n):
            replay(ctx, d, s["first"] + list(suffix))
        ml.set_default_angles(None)
        return
    # every assignment as default and explicitly, in a fork
    OPS["all"] = lambda w: every(ctx, w, s["k"])
    walk(ctx, w, [], ["all"], 1, ["all"])
    del OPS["all"]


def every(ctx, w, k0):
    for k in range(k0, k0 + 6):
        for other in range(48):
            a, b = ref.dic_of(k), ref.dic_of(other)
            ml.set_default_angles(a)
            w.default = dict(a)
            create(w)
            w.add(ml.MicropolImage(w.frame(), angle_dic=b), b)
            create(w)
            copy(w)
            decide(ctx, w, [f"default {k}", f"explicit {other}"])
            for im, dic in w.images:
                stokes(ctx, im, dic, f"default {k}, explicit {other}")
            ml.set_default_angles(b)
            w.default = dict(b)
            decide(ctx, w, [f"default {k}", f"explicit {other}", "changed"])
