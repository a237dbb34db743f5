"""Reference model of the polar selections, with the pixels whose answer rounding may decide left open."""
import numpy as np


def trunc(v):
    return int(v)  # towards zero


def grid(h, w, cy, cx):
    y, x = np.mgrid[0:h, 0:w].astype(float)
    dy, dx = y - cy, x - cx
    r2 = dx * dx + dy * dy  # exact for whole and half coordinates
    phi = np.degrees(np.arctan2(dy, dx)) % 360.0
    # exact quarter directions
    phi[(dy == 0) & (dx > 0)] = 0.0
    phi[(dx == 0) & (dy > 0)] = 90.0
    phi[(dy == 0) & (dx < 0)] = 180.0
    phi[(dx == 0) & (dy < 0)] = 270.0
    return r2, phi, (dy == 0) & (dx == 0)


def beyond(r2, r):
    return (r2 > r * r) if r >= 0 else np.ones(r2.shape, bool)


def sector(h, w, cy, cx, theta):
    """(selected, open): open pixels may go either way."""
    r2, phi, centre = grid(h, w, cy, cx)
    lo, hi = theta
    sel = (phi >= lo) & (phi < hi)
    free = np.zeros((h, w), bool)
    for b in (lo, hi):
        if b % 90 != 0:
            free |= np.abs(phi - b) < 1e-9
    if not (lo <= 0 and hi >= 360):
        free |= centre
    return sel, free


def annulus(h, w, cy, cx, rmin, rmax):
    r2, _, _ = grid(h, w, cy, cx)
    return beyond(r2, rmin) & ~beyond(r2, rmax)


def roi(h, w, center=None, rho=None, theta=(0, 360), superpixels=True):
    cy, cx = (h // 2, w // 2) if center is None else center
    rmin, rmax = (0.0, min(h - cy, w - cx)) if rho is None else rho
    if superpixels:
        h, w = h // 2, w // 2
        cy, cx, rmin, rmax = trunc(cy / 2), trunc(cx / 2), trunc(rmin / 2), trunc(rmax / 2)
    s, free = sector(h, w, cy, cx, theta)
    ring = annulus(h, w, cy, cx, rmin, rmax)
    sel, free = s & ring, free & ring
    if superpixels:
        sel, free = (a.repeat(2, axis=0).repeat(2, axis=1) for a in (sel, free))
    return sel, free


def nrgf(d, y, x, rho_min, step=1, phi_to_mean=(0, 360), output_phi=(0, 360)):
    """(values, open)"""
    d = np.asarray(d, dtype=float)
    h, w = d.shape
    r2, _, _ = grid(h, w, y, x)
    ms, mf = sector(h, w, y, x, phi_to_mean)
    os_, of = sector(h, w, y, x, output_phi)
    out = np.zeros((h, w))
    free = np.zeros((h, w), bool)
    top = int(np.sqrt(r2.max()))
    r = rho_min
    while r < top:
        ring = beyond(r2, r) & ~beyond(r2, r + step)
        m = ring & ms
        o = ring & os_
        free |= ring & of
        if (ring & mf).any():
            free |= o  # statistics undecided
        elif not m.any():
            out[o] = 0.0  # nothing to average over
        else:
            v = d[m]
            if v.max() == v.min():
                out[o] = 0.0
            else:
                mu = v.sum() / v.size
                out[o] = (d[o] - mu) / np.sqrt(((v - mu) ** 2).sum() / v.size)
        r += step
    return out, free
