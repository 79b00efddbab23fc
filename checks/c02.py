"""C02: predicted visibilities are the forward Fourier sum; adjoint of C01."""
from hypothesis import strategies as st
import numpy as np
from vlib.core import all_histories, scaled
from vlib.core import strided, Sub, sut, imp, close, expect, frozen, unchanged
from vlib import wg

PROPERTY = "C02"
RULE = ("generated images and observations against the explicit forward sum "
        "and the adjointness identity; non-trivial as in C01")


def run_model(case):
    model = imp("africanus.gridding.wgridder", "model")
    uvw, freq, vis, image, weights, flag, idx, counts = wg.build(case)
    ins = [uvw, freq, image, weights, flag, idx, counts]
    cp = frozen(*ins)
    with sut("model"):
        mv = model(uvw, freq, image, idx, counts, case["cell"],
                   **wg.kwargs(case, weights, flag, accum=False))
    unchanged(ins, cp, "model")
    expect(mv.dtype == (np.complex64 if case["single"] else np.complex128),
           "model visibility dtype is %s", mv.dtype)
    expect(mv.shape == (case["nrow"], case["nchan"]),
           "model visibility shape %s", mv.shape)
    ref, mag, mapped = wg.ref_model(case, uvw, freq, image, weights, flag)
    close(mv[:, mapped], ref[:, mapped], wg.tol(case), "model visibilities",
          scale=mag[:, mapped] + 1e-12)
    if flag is not None:
        expect(np.all(mv[:, mapped][flag[:, mapped] == 0] == 0),
               "masked-out samples got a model value")
    return wg.nontrivial(case), wg.labels(case)


def run_defaults(case):
    model = imp("africanus.gridding.wgridder", "model")
    uvw, freq, vis, image, weights, flag, idx, counts = wg.build(case)
    case = dict(case, celly=None, wstack=True, eps=1e-5)
    with sut("model"):
        mv = model(uvw, freq, image, idx, counts, case["cell"])
    ref, mag, mapped = wg.ref_model(case, uvw, freq, image, None, None)
    close(mv[:, mapped], ref[:, mapped], wg.tol(case),
          "model visibilities with default options",
          scale=mag[:, mapped] + 1e-12)
    return wg.nontrivial(case), wg.labels(case)


def run_adjoint(case):
    dirty, model = imp("africanus.gridding.wgridder", "dirty", "model")
    uvw, freq, vis, image, weights, flag, idx, counts = wg.build(case)
    with sut("dirty"):
        im = dirty(uvw, freq, vis, idx, counts, case["nx"], case["ny"],
                   case["cell"], **wg.kwargs(case, weights, flag))
    with sut("model"):
        mv = model(uvw, freq, image, idx, counts, case["cell"],
                   **wg.kwargs(case, weights, flag, accum=False))
    # the operators are exact adjoints of each other up to rounding
    a = np.vdot(im.astype("f8"), image.astype("f8"))
    b = np.vdot(vis.astype("c16"), mv.astype("c16")).real
    _, mag, _ = wg.ref_model(case, uvw, freq, image, weights, flag)
    sc = (np.abs(vis) * mag).sum() + 1e-12
    # masked-out channels outside any band do not contribute on either side
    close(a, b, 2e-4 if case["single"] else 1e-10, "<R^H y, x> = <y, R x>",
          scale=sc)
    return wg.nontrivial(case), wg.labels(case)


def gen(draw):
    return wg.gen(draw, st)


SUBS = [Sub("explicit_sum", gen, run_model, 500, 8000),
        Sub("defaults", gen, run_defaults, 100, 1500),
        Sub("adjoint", gen, run_adjoint, 200, 4000)]

SUBS += [strided(s, 30, 400) for s in SUBS if s.name in
         ['explicit_sum']]

for _s in SUBS:
    _s.quick *= 3

SUBS += all_histories(SUBS) + scaled(SUBS)
