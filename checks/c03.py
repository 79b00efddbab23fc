"""C03: residual and hessian images are what the two operators compose to."""
from hypothesis import strategies as st
import numpy as np
from vlib.core import all_histories, scaled
from vlib.core import strided, Sub, sut, imp, close, expect, frozen, unchanged
from vlib import wg

PROPERTY = "C03"
RULE = ("generated images, visibilities and observations; residual and "
        "hessian images against explicit sums of the composition; "
        "non-trivial as in C01")


def compose(case, uvw, freq, image, vis, weights, flag):
    """dirty image of (vis - prediction), weights applied once"""
    pred, pmag, _ = wg.ref_model(case, uvw, freq, image, None, flag)
    if vis is not None and flag is not None:
        vis = np.where(flag != 0, vis, 0)
    v = (vis.astype("c16") if vis is not None else 0) - pred
    ref, mag = wg.ref_dirty(case, uvw, freq, v, weights, flag)
    big = pmag + (np.abs(vis) if vis is not None else 0)
    _, mag = wg.ref_dirty(case, uvw, freq, big, weights, flag)
    return ref, mag


def run_residual(case):
    residual = imp("africanus.gridding.wgridder", "residual")
    uvw, freq, vis, image, weights, flag, idx, counts = wg.build(case, True)
    ins = [uvw, freq, image, vis, weights, flag, idx, counts]
    cp = frozen(*ins)
    with sut("residual"):
        im = residual(uvw, freq, image, vis, idx, counts, case["cell"],
                      **wg.kwargs(case, weights, flag))
    unchanged(ins, cp, "residual")
    expect(im.dtype == image.dtype, "residual image dtype is %s", im.dtype)
    ref, mag = compose(case, uvw, freq, image, vis, weights, flag)
    close(im, ref, wg.tol(case, 8.0), "residual image",
          scale=(mag + 1e-12)[:, None, None])
    return wg.nontrivial(case), wg.labels(case)


def run_hessian(case):
    hessian = imp("africanus.gridding.wgridder", "hessian")
    uvw, freq, vis, image, weights, flag, idx, counts = wg.build(case)
    ins = [uvw, freq, image, weights, flag, idx, counts]
    cp = frozen(*ins)
    with sut("hessian"):
        im = hessian(uvw, freq, image, idx, counts, case["cell"],
                     **wg.kwargs(case, weights, flag))
    unchanged(ins, cp, "hessian")
    expect(im.dtype == image.dtype, "hessian image dtype is %s", im.dtype)
    ref, mag = compose(case, uvw, freq, image, None, weights, flag)
    close(im, -ref, wg.tol(case, 8.0), "hessian image",
          scale=(mag + 1e-12)[:, None, None])
    return wg.nontrivial(case), wg.labels(case)


def run_defaults(case):
    residual, hessian = imp("africanus.gridding.wgridder", "residual",
                            "hessian")
    uvw, freq, vis, image, weights, flag, idx, counts = wg.build(case)
    case = dict(case, celly=None, wstack=True, eps=1e-5)
    with sut("residual"):
        r = residual(uvw, freq, image, vis, idx, counts, case["cell"])
    with sut("hessian"):
        h = hessian(uvw, freq, image, idx, counts, case["cell"])
    ref, mag = compose(case, uvw, freq, image, vis, None, None)
    close(r, ref, wg.tol(case, 8.0), "residual image with default options",
          scale=(mag + 1e-12)[:, None, None])
    ref, mag = compose(case, uvw, freq, image, None, None, None)
    close(h, -ref, wg.tol(case, 8.0), "hessian image with default options",
          scale=(mag + 1e-12)[:, None, None])
    return wg.nontrivial(case), wg.labels(case)


def run_perfect(case):
    """subtracting a model from its own prediction leaves nothing"""
    residual, model = imp("africanus.gridding.wgridder", "residual", "model")
    uvw, freq, vis, image, weights, flag, idx, counts = wg.build(case)
    kw = wg.kwargs(case, None, flag, accum=False)
    with sut("model"):
        mv = model(uvw, freq, image, idx, counts, case["cell"], **kw)
    with sut("residual"):
        im = residual(uvw, freq, image, mv, idx, counts, case["cell"],
                      **wg.kwargs(case, weights, flag))
    ref, mag = compose(case, uvw, freq, image, mv, weights, flag)
    close(im, np.zeros_like(im), wg.tol(case, 8.0),
          "residual of a perfect model", scale=(mag + 1e-12)[:, None, None])
    return wg.nontrivial(case), wg.labels(case)


def gen(draw):
    return wg.gen(draw, st)


SUBS = [Sub("residual", gen, run_residual, 350, 6000),
        Sub("hessian", gen, run_hessian, 350, 6000),
        Sub("defaults", gen, run_defaults, 100, 1500),
        Sub("perfect_model", gen, run_perfect, 120, 2000)]

SUBS += [strided(s, 30, 400) for s in SUBS if s.name in
         ['residual', 'hessian']]

for _s in SUBS:
    _s.quick *= 3

SUBS += all_histories(SUBS) + scaled(SUBS)
