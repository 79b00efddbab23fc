"""A stand-in for the nifty_gridder package, which is not installed: the calls
the wrappers make, with nearest-pixel gridding and a plain Fourier transform.
The wrappers are judged on what they feed to it and do with its results."""
import sys
import types

import numpy as np

C = 299792458.0


class GridderConfig(object):
    def __init__(self, nx, ny, eps, px, py):
        self.a = (nx, ny, eps, px, py)

    def __dask_tokenize__(self):
        return ("GridderConfig",) + self.a

    def Nxdirty(self):
        return self.a[0]

    def Nydirty(self):
        return self.a[1]

    def Epsilon(self):
        return self.a[2]

    def Pixsize_x(self):
        return self.a[3]

    def Pixsize_y(self):
        return self.a[4]

    def Nu(self):
        return 2 * self.a[0]

    def Nv(self):
        return 2 * self.a[1] + 2

    def grid2dirty_c(self, grid):
        need(grid, "c16", (self.Nu(), self.Nv()))
        return np.fft.fft2(grid)[:self.a[0], :self.a[1]] * self.a[3]

    def dirty2grid_c(self, dirty):
        need(dirty, "c16", self.a[:2])
        return np.fft.fft2(dirty, (self.Nu(), self.Nv())) * self.a[4]


def need(x, dtype, shape):
    if not isinstance(x, np.ndarray) or x.dtype != np.dtype(dtype) or \
            x.shape != tuple(shape):
        raise TypeError("incompatible function arguments: %s %s, expected "
                        "%s %s" % (getattr(x, "dtype", type(x)),
                                   getattr(x, "shape", ()), dtype, shape))


class Baselines(object):
    def __init__(self, uvw, freq):
        if uvw.ndim != 2 or uvw.shape[1] != 3 or freq.ndim != 1:
            raise TypeError("incompatible function arguments")
        self.uvw, self.freq = uvw.copy(), freq.copy()
        self.shape = (len(uvw), len(freq))


def pixels(uvw, freq, nu, nv, px, py):
    """grid pixels and w of every sample, (row, chan)"""
    x = uvw[:, None, :] * freq[None, :, None] / C
    return (np.floor(x[..., 0] * px).astype(int) % nu,
            np.floor(x[..., 1] * py).astype(int) % nv, x[..., 2])


def getIndices(b, gc, flags, chbegin, chend, wmin, wmax):
    if flags.shape != b.shape or flags.dtype != bool:
        raise TypeError("incompatible flags")
    lo = 0 if chbegin < 0 else chbegin
    hi = b.shape[1] if chend < 0 else chend
    w = pixels(b.uvw, b.freq, gc.Nu(), gc.Nv(), gc.a[3], gc.a[4])[2]
    ok = ~flags & (w >= wmin) & (w < wmax)
    ch = np.arange(b.shape[1])[None]
    return np.flatnonzero(ok & (ch >= lo) & (ch < hi)).astype(np.int32)


def ms2grid_c(b, gc, idx, ms, grid_in, wgt):
    need(ms, "c16", b.shape)
    need(wgt, "f8", b.shape)
    if grid_in is None:
        grid_in = np.zeros((gc.Nu(), gc.Nv()), complex)
    need(grid_in, "c16", (gc.Nu(), gc.Nv()))
    u, v, _ = pixels(b.uvw, b.freq, gc.Nu(), gc.Nv(), gc.a[3], gc.a[4])
    for i in idx:
        grid_in[u.flat[i], v.flat[i]] += ms.flat[i] * wgt.flat[i]
    return grid_in


def grid2ms_c(b, gc, idx, grid):
    need(grid, "c16", (gc.Nu(), gc.Nv()))
    u, v, _ = pixels(b.uvw, b.freq, gc.Nu(), gc.Nv(), gc.a[3], gc.a[4])
    ms = np.zeros(b.shape, complex)
    for i in idx:
        ms.flat[i] = grid[u.flat[i], v.flat[i]]
    return ms


def install():
    m = types.ModuleType("nifty_gridder")
    for n in ("GridderConfig", "Baselines", "getIndices", "ms2grid_c",
              "grid2ms_c"):
        setattr(m, n, globals()[n])
    sys.modules["nifty_gridder"] = m
