"""Synthetic calibrations: Malus-law frames of known sensors, and the matrices they must lead to."""
import itertools
import os
import shutil

import numpy as np
import micropolarray as ml
from astropy.io import fits
from mc import fitsio, ref

TS = (0.15, 0.4, 0.7, 0.95)
ES = (0.2, 0.5, 0.8, 0.97)
DP = (-12.0, -5.0, 0.0, 7.0, 13.0)
COMBOS = list(itertools.product(TS, ES, DP))  # 80


def malus(S, t, e, phi_deg, ang_deg):
    return 0.5 * S * t * (1.0 + e * np.cos(2.0 * np.deg2rad(phi_deg - ang_deg)))


class Sensor:
    """Per-pixel transmittance, efficiency and phase; every superpixel is a different combination."""

    def __init__(self, h, w, phases, salt=0, block=1):
        """phases: orientation predicted for each of the four positions; block: superpixels sharing parameters."""
        self.h, self.w, self.phases = h, w, list(phases)
        n = len(COMBOS)
        hs, ws = h // 2, w // 2
        y, x = np.mgrid[0:hs, 0:ws]
        k = (y // block) * ((ws + block - 1) // block) + x // block + salt
        par = []
        for j, (a, b) in enumerate(((1, 0), (7, 13), (11, 29), (3, 53))):
            c = (k * a + b) % n
            arr = np.array(COMBOS)[c]
            arr[..., 2] += phases[j]
            par.append(arr)
        par = np.array(par)  # position, y, x, (t, e, phi)
        self.t, self.e, self.phi = (ref.merge(par[..., q]) for q in range(3))

    def frame(self, S, angle):
        return malus(S, self.t, self.e, self.phi, angle)

    def light(self, I, Q, U):
        """Pixels under light given by its Stokes maps at superpixel resolution."""
        up = lambda a: np.asarray(a, float).repeat(2, axis=0).repeat(2, axis=1)
        p = np.deg2rad(self.phi)
        return 0.5 * self.t * (up(I) + self.e * (np.cos(2 * p) * up(Q) + np.sin(2 * p) * up(U)))

    def modulation(self):
        t, e, p = ref.split(self.t), ref.split(self.e), np.deg2rad(ref.split(self.phi))
        m = np.stack([0.5 * t, 0.5 * t * e * np.cos(2 * p), 0.5 * t * e * np.sin(2 * p)])  # 3, 4, y, x
        return m.transpose(2, 3, 1, 0)  # y, x, pixel, stokes

    def matrices(self):
        return np.linalg.pinv(self.modulation()).transpose(2, 3, 0, 1)  # 3, 4, y, x

    def sub(self, ysl, xsl):
        s = object.__new__(Sensor)
        s.phases = self.phases
        s.t, s.e, s.phi = (a[ysl, xsl] for a in (self.t, self.e, self.phi))
        s.h, s.w = s.t.shape
        return s


def theoretical(phases):
    p = np.deg2rad(np.asarray(phases, float))
    m = np.array([[0.5] * 4, 0.5 * np.cos(2 * p), 0.5 * np.sin(2 * p)]).T
    return np.linalg.pinv(m)


def write(path, data, **cards):
    fitsio.write(path, data, **cards)


# names whose order differs from the order of the angles
NAMES = ("m", "c", "x", "a", "t", "f", "z", "b", "k", "q", "d", "w")


def write_frames(folder, frames, names=NAMES):
    os.makedirs(folder, exist_ok=True)
    res = []
    for k, f in enumerate(frames):
        p = f"{folder}/{names[k]}_frame.fits"
        write(p, f)
        res.append(p)
    return res


def fresh(folder):
    folder = str(folder)
    assert folder.startswith("/tmp/") or os.path.realpath(folder).startswith(os.path.realpath(os.environ.get("MC_SCRATCH", "/tmp")))
    shutil.rmtree(folder, ignore_errors=True)
    return folder


def calibrate(angles, files, phases, out, **kw):
    kw.setdefault("procs_grid", [1, 1])
    kw.setdefault("gain", 2.75)
    ml.calculate_demodulation_tensor(list(angles), list(files), list(phases), output_dir=str(out), **kw)
    return ml.Demodulator(str(out))


def load_all(out):
    """Every file of a calibration folder, read directly."""
    res = {}
    for root, _, names in os.walk(str(out)):
        for n in names:
            p = os.path.join(root, n)
            with fits.open(p) as hul:
                res[os.path.relpath(p, str(out))] = np.array(hul[0].data, dtype=float)
    return res
