"""Boring reference models and input alphabets, written independently of the library."""
import itertools

import numpy as np

ANGLES = (0, 45, -45, 90)
ALL_DICS = [dict(zip(ANGLES, p)) for p in itertools.permutations(range(4))]
# the same assignments listed in another key order (dictionaries are ordered)
MIXED_DICS = [dict(sorted(d.items(), key=lambda kv: kv[1])) for d in ALL_DICS]
DEFAULT = {0: 0, 45: 1, -45: 2, 90: 3}


def dic_of(k):
    """24 assignments x 2 key orders."""
    return dict((ALL_DICS + MIXED_DICS)[k])


FINE = 2.0 ** -18  # lost in single precision, and sums of some 10^6 pixels are still exact in double precision


def code(h, w, salt=0, scale=0.25, offset=1.0, fine=FINE):
    """Irregular values, distinct for frames below 9973 pixels; exact in float32 with fine=0."""
    n = np.arange(h * w, dtype=np.int64) + 1 + 131 * salt
    return ((n * 2654435761 % 9973) * scale + offset + (n * 7 % 61 + 1) * fine).reshape(h, w)


def frame(kind, h, w, salt=0, fine=FINE):
    c = code(h, w, salt, fine=fine)
    if kind == "code":
        return c
    if kind == "signed":
        return c - 1200.0
    if kind == "holes":  # zeros, every position of the superpixel gets some
        m = (np.arange(h)[:, None] * 3 + np.arange(w)[None, :] * 5 + salt) % 7 < 2
        return np.where(m, 0.0, c)
    if kind == "const":
        return np.full((h, w), 7.5)
    if kind == "zero":
        return np.zeros((h, w))
    if kind == "huge":
        return c * 1.0e9
    if kind == "tiny":
        return c * 2.0 ** -40
    if kind == "int":
        return np.floor(c)
    raise KeyError(kind)


def impulse(h, w, y, x):
    f = np.zeros((h, w))
    f[y, x] = 1.0
    return f


VALUES = (0.0, 1.0, -3.0, 0.5, 4095.0, 65535.0, 2.0 ** -20, -1.0e9)


def tuples_frame(values=VALUES):
    """A frame whose superpixels are all 4-tuples over the given values, once each."""
    n = len(values)
    v = np.asarray(values, dtype=float)
    t = np.array(list(itertools.product(range(n), repeat=4)))
    f = np.zeros((2 * n * n, 2 * n * n))
    k = np.arange(n ** 4)
    y, x = 2 * (k // (n * n)), 2 * (k % (n * n))
    f[y, x] = v[t[:, 0]]
    f[y, x + 1] = v[t[:, 1]]
    f[y + 1, x] = v[t[:, 2]]
    f[y + 1, x + 1] = v[t[:, 3]]
    return f


def split(d):
    d = np.asarray(d, dtype=float)
    return np.stack([d[0::2, 0::2], d[0::2, 1::2], d[1::2, 0::2], d[1::2, 1::2]])


def merge(f):
    f = np.asarray(f, dtype=float)
    h, w = f.shape[1:]
    d = np.empty((2 * h, 2 * w))
    for k in range(4):
        d[k // 2::2, k % 2::2] = f[k]
    return d


def stokes(f, dic):
    """Theoretical Stokes maps of four family images."""
    f = np.asarray(f, dtype=float)
    return np.stack([0.5 * (f[0] + f[1] + f[2] + f[3]), f[dic[0]] - f[dic[90]], f[dic[45]] - f[dic[-45]]])


def pb(S):
    return np.sqrt(S[1] * S[1] + S[2] * S[2])


def dolp(S):
    out = np.zeros(S[0].shape)
    nz = S[0] != 0
    out[nz] = pb(S)[nz] / S[0][nz]
    return out


def aolp(S):
    return 0.5 * np.arctan2(S[2], S[1])


def rebin(d, n):
    h, w = d.shape[0] // n, d.shape[1] // n
    d = np.asarray(d, dtype=float)
    out = np.zeros((h, w))
    for a in range(n):
        for b in range(n):
            out += d[a:h * n:n, b:w * n:n]
    return out


def rebin_mp(d, n):
    return merge([rebin(f, n) for f in split(d)])


def shift(d, y, x, missing):
    h, w = d.shape
    out = np.full((h, w), float(missing))
    for j in range(h):
        for i in range(w):
            if 0 <= j + y < h and 0 <= i + x < w:
                out[j + y, i + x] = d[j, i]
    return out


def shift_fast(d, y, x, missing):
    h, w = d.shape
    out = np.full((h, w), float(missing))
    if abs(y) < h and abs(x) < w:
        out[max(y, 0):h + min(y, 0), max(x, 0):w + min(x, 0)] = d[max(-y, 0):h + min(-y, 0), max(-x, 0):w + min(-x, 0)]
    return out


def shift_mp(d, y, x, missing):
    return merge([shift_fast(f, y, x, missing) for f in split(d)])


def demosaic(d, mode):
    fam = split(d)
    h, w = d.shape
    out = np.zeros((4, h, w))
    if mode == "mean":
        for k in range(4):
            out[k] = 0.25 * fam[k].repeat(2, axis=0).repeat(2, axis=1)
        return out
    assert mode == "adjacent"
    for k in range(4):
        f = fam[k]
        down = np.vstack([f[1:], f[-1:]])
        right = np.hstack([f[:, 1:], f[:, -1:]])
        diag = np.hstack([down[:, 1:], down[:, -1:]])
        out[k, 0::2, 0::2] = f
        out[k, 0::2, 1::2] = 0.5 * (f + right)
        out[k, 1::2, 0::2] = 0.5 * (f + down)
        out[k, 1::2, 1::2] = 0.25 * (f + right + down + diag)
    return out


def congrid(a, newdims):
    """Corner-aligned bilinear interpolation."""
    a = np.asarray(a, dtype=float)

    def axis(n, m):
        if m == 1 or n == 1:
            return np.zeros(m, int), np.zeros(m, int), np.zeros(m)
        pos = np.arange(m) * (n - 1) / (m - 1)
        lo = np.minimum(np.floor(pos + 1e-12).astype(int), n - 2)
        return lo, lo + 1, pos - lo
    y0, y1, fy = axis(a.shape[0], newdims[0])
    x0, x1, fx = axis(a.shape[1], newdims[1])
    top = a[y0][:, x0] * (1 - fx) + a[y0][:, x1] * fx
    bot = a[y1][:, x0] * (1 - fx) + a[y1][:, x1] * fx
    return top * (1 - fy)[:, None] + bot * fy[:, None]


def ifov(d):
    d = np.asarray(d, dtype=float)
    out = np.zeros(d.shape)
    out[2:, 2:] = 0.25 * (d[2:, 2:] + d[:-2, 2:] + d[2:, :-2] + d[:-2, :-2])
    return out


def median2(f):
    """Median of the 2x2 neighbourhood (self, up, left, diagonal; border reflected) as scipy's size-2 median filter:
    the upper of the two middle values."""
    f = np.asarray(f, dtype=float)
    p = np.vstack([f[:1], f])
    p = np.hstack([p[:, :1], p])
    s = np.stack([p[1:, 1:], p[:-1, 1:], p[1:, :-1], p[:-1, :-1]])
    return np.sort(s, axis=0)[2]


def polar(h, w, cy, cx):
    y, x = np.mgrid[0:h, 0:w]
    rho = np.sqrt((x - cx) ** 2.0 + (y - cy) ** 2.0)
    phi = np.degrees(np.arctan2(y - cy, x - cx)) % 360.0
    return rho, phi


def clean_hot(d, flags):
    fam = split(d)
    fl = split(flags)
    return merge([np.where(fl[k] == 1, median2(fam[k]), fam[k]) for k in range(4)])
