"""C01: the dirty image is the weighted adjoint Fourier sum, band by band."""
from hypothesis import strategies as st
import numpy as np
from vlib.core import all_histories, scaled
from vlib.core import strided, Sub, Known, sut, imp, close, expect, frozen, \
    unchanged, expect_raises
from vlib import wg

PROPERTY = "C01"
RULE = ("generated observations (rows, channels, bands with and without "
        "gaps, weights, masks, pixel sizes, precision, accuracy) against the "
        "explicit Fourier sum; non-trivial: more than one row, baselines not "
        "all zero, more than 4 pixels and not everything masked out")


def run_dirty(case):
    dirty = imp("africanus.gridding.wgridder", "dirty")
    uvw, freq, vis, image, weights, flag, idx, counts = wg.build(case, True)
    ins = [uvw, freq, vis, weights, flag, idx, counts]
    cp = frozen(*ins)
    with sut("dirty"):
        im = dirty(uvw, freq, vis, idx, counts, case["nx"], case["ny"],
                   case["cell"], **wg.kwargs(case, weights, flag))
    unchanged(ins, cp, "dirty")
    ref, mag = wg.ref_dirty(case, uvw, freq, vis, weights, flag)
    expect(im.dtype == (np.float32 if case["single"] else np.float64),
           "dirty image dtype is %s", im.dtype)
    close(im, ref, wg.tol(case), "dirty image", scale=(mag + 1e-12)[:, None, None])
    return wg.nontrivial(case), wg.labels(case)


def run_defaults(case):
    """the documented defaults are what leaving them out means"""
    dirty = imp("africanus.gridding.wgridder", "dirty")
    uvw, freq, vis, image, weights, flag, idx, counts = wg.build(case)
    case = dict(case, celly=None, wstack=True, eps=1e-5)
    with sut("dirty"):
        im = dirty(uvw, freq, vis, idx, counts, case["nx"], case["ny"],
                   case["cell"])
    expect_raises((ValueError, TypeError, RuntimeError),
                  "visibilities that are not complex", lambda:
                  dirty(uvw, freq, vis.real, idx, counts, case["nx"],
                        case["ny"], case["cell"]))
    ref, mag = wg.ref_dirty(case, uvw, freq, vis, None, None)
    close(im, ref, wg.tol(case), "dirty image with default options",
          scale=(mag + 1e-12)[:, None, None])
    return wg.nontrivial(case), wg.labels(case)


def run_band_isolation(case):
    """what happens in one band does not reach another, and the operator is
    linear in the visibilities"""
    dirty = imp("africanus.gridding.wgridder", "dirty")
    uvw, freq, vis, image, weights, flag, idx, counts = wg.build(case)
    b = case["band"] % len(idx)
    s = slice(idx[b], idx[b] + counts[b])
    vis2 = np.zeros_like(vis)
    vis2[:, s] = vis[:, s]
    kw = wg.kwargs(case, weights, flag)
    args = (idx, counts, case["nx"], case["ny"], case["cell"])
    with sut("dirty"):
        im = dirty(uvw, freq, vis, *args, **kw)
        im2 = dirty(uvw, freq, vis2, *args, **kw)
        im3 = dirty(uvw, freq, 2 * vis - vis2, *args, **kw)
    mag = wg.ref_dirty(case, uvw, freq, vis, weights, flag)[1]
    sc = (mag + 1e-12)[:, None, None]
    t = wg.tol(case, 8.0)
    for i in range(len(idx)):
        want = im[i] if i == b else np.zeros_like(im[i])
        close(im2[i], want, t, "band %d after clearing the others" % i,
              scale=sc[i])
    close(im3, 2 * im - im2, t, "linearity", scale=3 * sc)
    return wg.nontrivial(case) and len(idx) > 1, wg.labels(case)


def gen(draw):
    return wg.gen(draw, st)


def gen_iso(draw):
    c = wg.gen(draw, st)
    c["band"] = draw(st.integers(0, 3))
    return c


SUBS = [Sub("explicit_sum", gen, run_dirty, 500, 8000),
        Sub("defaults", gen, run_defaults, 100, 1500),
        Sub("band_isolation", gen_iso, run_band_isolation, 150, 3000)]

SUBS += [strided(s, 30, 400) for s in SUBS if s.name in
         ['explicit_sum']]

for _s in SUBS:
    _s.quick *= 3

SUBS += all_histories(SUBS) + scaled(SUBS)
