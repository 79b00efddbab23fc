"""Explicit-sum reference and generators for the w-gridding operators."""
import numpy as np

from vlib.core import rng, sz

C = 2.99792458e8


def lm(case):
    nx, ny = case["nx"], case["ny"]
    x = (np.arange(nx) - nx // 2) * case["cell"]
    y = (np.arange(ny) - ny // 2) * (case["celly"] or case["cell"])
    e = x[:, None] ** 2 + y[None, :] ** 2
    nm1 = -e / (np.sqrt(1 - e) + 1) if case["wstack"] else np.zeros_like(e)
    return x, y, nm1


def phases(case, uvw, freq):
    """(row, chan, nx, ny) phase in turns"""
    x, y, nm1 = lm(case)
    ph = (uvw[:, 0, None, None] * x[None, :, None] +
          uvw[:, 1, None, None] * y[None, None, :] -
          uvw[:, 2, None, None] * nm1[None])
    return ph[:, None] * (freq / C)[None, :, None, None], 1 + nm1


def ref_dirty(case, uvw, freq, vis, weights, flag):
    """(band, nx, ny)"""
    out = []
    mag = []
    for i, n in zip(case["bin_idx"], case["bin_counts"]):
        s = slice(i, i + n)
        a = vis[:, s].astype(np.complex128)
        if weights is not None:
            a = a * weights[:, s].astype(np.float64)
        if flag is not None:
            a = np.where(flag[:, s] != 0, a, 0)
        ph, n_ = phases(case, uvw, freq[s])
        im = np.einsum("rc,rcxy->xy", a, np.exp(2j * np.pi * ph)).real / n_
        out.append(im)
        mag.append(np.abs(a).sum())
    return np.array(out), np.array(mag)


def ref_model(case, uvw, freq, image, weights, flag):
    """(row, chan) visibilities, magnitudes, and which channels are mapped"""
    vis = np.zeros((uvw.shape[0], freq.size), dtype=np.complex128)
    mag = np.zeros(vis.shape)
    mapped = np.zeros(freq.size, dtype=bool)
    for b, (i, n) in enumerate(zip(case["bin_idx"], case["bin_counts"])):
        s = slice(i, i + n)
        mapped[s] = True
        ph, n_ = phases(case, uvw, freq[s])
        x = image[b].astype(np.float64) / n_
        v = np.einsum("xy,rcxy->rc", x, np.exp(-2j * np.pi * ph))
        w = np.ones(v.shape)
        if weights is not None:
            w = weights[:, s].astype(np.float64)
        if flag is not None:
            w = np.where(flag[:, s] != 0, w, 0)
        vis[:, s] = v * w
        mag[:, s] = np.abs(x).sum() * np.abs(w)
    return vis, mag, mapped


def gen(draw, st, gaps=True, small=False):
    nx = 2 * draw(st.integers(1, 8 if small else 16))
    ny = 2 * draw(st.integers(1, 8 if small else 16))
    nrow = sz(draw, 1, 12, 150)
    nband = sz(draw, 1, 4, 12)
    idx, counts, pos = [], [], 0
    for b in range(nband):
        if gaps and b and draw(st.integers(0, 5)) == 0:
            pos += draw(st.integers(1, 2))
        n = sz(draw, 1, 3, 20)
        idx.append(pos)
        counts.append(n)
        pos += n
    nchan = pos
    if gaps and draw(st.integers(0, 5)) == 0:
        nchan += 1
    if nrow * nchan * nx * ny > 10 ** 6:
        nx, ny = min(nx, 8), min(ny, 10)
    single = draw(st.booleans())
    eps = 10.0 ** -(draw(st.integers(30, 45)) / 10.0 if single
                    else draw(st.integers(30, 110)) / 10.0)
    fov = 10.0 ** (draw(st.integers(-20, 12)) / 10.0)     # degrees
    ratio = draw(st.sampled_from([None, None, 0.5, 0.75, 1.0, 1.25, 1.9]))
    cell = float(np.deg2rad(fov) / nx)
    lim = 0.7 / (0.5 * np.hypot(nx, ny * (ratio or 1.0)))
    cell = min(cell, float(lim))
    return dict(
        nx=nx, ny=ny, nrow=nrow, nchan=nchan, bin_idx=idx, bin_counts=counts,
        single=single, eps=eps, cell=cell,
        celly=None if ratio is None else cell * ratio,
        uvscale=draw(st.sampled_from([0.3, 0.05, 0.9, 2.5, 0.9, 0.3, 0.0])),
        wscale=draw(st.sampled_from([0.0, 0.2, 1.0, 0.5])),
        weights=draw(st.sampled_from(["none", "pos", "pos", "zeros", "signed"])),
        flag=draw(st.sampled_from(["none", "random", "ones", "random", "none", "random", "zeros"])),
        flagval=draw(st.sampled_from([1, 1, 2, 255])),
        wstack=draw(st.booleans()),
        nan=draw(st.sampled_from([False, False, True])),
        nthreads=draw(st.sampled_from([1, 1, 2, 0])),
        double_accum=draw(st.booleans()),
        freq0=draw(st.sampled_from([5e7, 1e9, 1.4e9, 1e11])),
        seed=draw(st.integers(0, 2 ** 32 - 1)))


def build(case, nan=False):
    rs = rng(case)
    nrow, nchan = case["nrow"], case["nchan"]
    freq = case["freq0"] * (1 + np.sort(rs.rand(nchan)))
    s = 1.0 / (case["cell"] * freq.max() / C)
    uvw = (rs.rand(nrow, 3) - 0.5) * s * case["uvscale"]
    uvw[:, 2] = (rs.rand(nrow) - 0.5) * s * case["wscale"]
    # beyond ~1e5 wavelengths of w only cost is exercised
    wmax = 2e4 * C / freq.max()
    uvw[:, 2] = np.clip(uvw[:, 2], -wmax, wmax)
    ct, rt = ((np.complex64, np.float32) if case["single"] else
              (np.complex128, np.float64))
    vis = (rs.randn(nrow, nchan) + 1j * rs.randn(nrow, nchan)).astype(ct)
    image = rs.randn(len(case["bin_idx"]), case["nx"],
                     case["ny"]).astype(rt)
    w = rs.rand(nrow, nchan) + 0.1
    if case["weights"] == "zeros":
        w[rs.rand(nrow, nchan) < 0.4] = 0
    if case["weights"] == "signed":
        w *= np.where(rs.rand(nrow, nchan) < 0.3, -1, 1)
    weights = None if case["weights"] == "none" else w.astype(rt)
    f = {"none": None,
         "ones": np.ones((nrow, nchan)),
         "zeros": np.zeros((nrow, nchan)),
         "random": (rs.rand(nrow, nchan) < 0.5)}[case["flag"]]
    flag = None if f is None else (f.astype(np.uint8) * case["flagval"]
                                   ).astype(np.uint8)
    if nan and flag is not None and case.get("nan"):
        # what is not selected may hold anything
        vis[flag == 0] = np.nan
    idx = np.array(case["bin_idx"])
    counts = np.array(case["bin_counts"])
    return uvw, freq, vis, image, weights, flag, idx, counts


def kwargs(case, weights, flag, accum=True):
    kw = dict(weights=weights, flag=flag, celly=case["celly"],
              epsilon=case["eps"], nthreads=case["nthreads"],
              do_wstacking=case["wstack"])
    if accum:
        kw["double_accum"] = case["double_accum"]
    return kw


def tol(case, factor=4.0):
    return factor * case["eps"] + (2e-5 if case["single"] else 1e-13)


def nontrivial(case):
    return (case["nrow"] > 1 and case["uvscale"] > 0 and
            case["nx"] * case["ny"] > 4 and case["flag"] != "zeros")


def labels(case):
    out = ["single" if case["single"] else "double",
           "weights:" + case["weights"], "flag:" + case["flag"],
           "bands>1" if len(case["bin_idx"]) > 1 else "one band"]
    if case["celly"] is not None:
        out.append("celly")
    if case["wstack"] and case["wscale"]:
        out.append("w-term")
    return out
