"""C04: chunked and lazy w-gridding gives the image of the whole data set."""
from hypothesis import strategies as st
import numpy as np
from vlib.core import all_histories, scaled
from vlib.core import Sub, sut, imp, close, expect
from vlib import wg, sched
from checks.c03 import compose

PROPERTY = "C04"
RULE = ("generated observations, compositions of rows and of bands into "
        "chunks, and execution orders; every lazy operator against the "
        "explicit sum over the whole data set; non-trivial: as C01 and more "
        "than one chunk along rows or bands")


def gen(draw):
    c = wg.gen(draw, st, gaps=False, small=True)
    c["rchunks"] = sched.chunks(draw, st, c["nrow"])
    c["bchunks"] = sched.chunks(draw, st, len(c["bin_idx"]), 3)
    c["order"] = draw(st.integers(0, 2 ** 16))
    c["threads"] = draw(st.integers(0, 5)) == 0
    return c


def lazy(case, nan=False):
    import dask.array as da
    uvw, freq, vis, image, weights, flag, idx, counts = wg.build(case, nan)
    rc = tuple(case["rchunks"])
    bc = tuple(case["bchunks"])
    cc, p = [], 0
    for n in bc:
        cc.append(int(counts[p:p + n].sum()))
        p += n
    cc = tuple(cc)

    def two(a):
        return None if a is None else da.from_array(a, chunks=(rc, cc))
    return dict(
        uvw=da.from_array(uvw, chunks=(rc, (3,))),
        freq=da.from_array(freq, chunks=(cc,)), vis=two(vis),
        weights=two(weights), flag=two(flag),
        image=da.from_array(image, chunks=(bc, (case["nx"],),
                                           (case["ny"],))),
        idx=da.from_array(idx, chunks=(bc,)),
        counts=da.from_array(counts, chunks=(bc,)))


def comp(case, x):
    if case["threads"]:
        return x.compute(scheduler="threads", num_workers=4)
    return sched.compute(x, seed=case["order"])[0]


def finish(case, x, name):
    with sut(name):
        r = comp(case, x)
    expect(tuple(x.shape) == r.shape, "%s announced shape %s, computed %s",
           name, x.shape, r.shape)
    expect(x.dtype == r.dtype, "%s announced dtype %s, computed %s", name,
           x.dtype, r.dtype)
    return r


def done(case):
    multi = len(case["rchunks"]) > 1 or len(case["bchunks"]) > 1
    return (wg.nontrivial(case) and multi,
            wg.labels(case) + ["row chunks>1"] * (len(case["rchunks"]) > 1) +
            ["band chunks>1"] * (len(case["bchunks"]) > 1))


def run_dirty(case):
    f = imp("africanus.gridding.wgridder.dask", "dirty")
    uvw, freq, vis, image, weights, flag, idx, counts = wg.build(case, True)
    L = lazy(case, True)
    with sut("lazy dirty"):
        x = f(L["uvw"], L["freq"], L["vis"], L["idx"], L["counts"],
              case["nx"], case["ny"], case["cell"],
              **wg.kwargs(case, L["weights"], L["flag"]))
    im = finish(case, x, "lazy dirty")
    ref, mag = wg.ref_dirty(case, uvw, freq, vis, weights, flag)
    close(im, ref, wg.tol(case), "chunked dirty image",
          scale=(mag + 1e-12)[:, None, None])
    return done(case)


def run_model(case):
    f = imp("africanus.gridding.wgridder.dask", "model")
    uvw, freq, vis, image, weights, flag, idx, counts = wg.build(case)
    L = lazy(case)
    with sut("lazy model"):
        x = f(L["uvw"], L["freq"], L["image"], L["idx"], L["counts"],
              case["cell"], **wg.kwargs(case, L["weights"], L["flag"],
                                        accum=False))
    mv = finish(case, x, "lazy model")
    ref, mag, mapped = wg.ref_model(case, uvw, freq, image, weights, flag)
    close(mv, ref, wg.tol(case), "chunked model visibilities",
          scale=mag + 1e-12)
    return done(case)


def run_residual(case):
    f = imp("africanus.gridding.wgridder.dask", "residual")
    uvw, freq, vis, image, weights, flag, idx, counts = wg.build(case, True)
    L = lazy(case, True)
    with sut("lazy residual"):
        x = f(L["uvw"], L["freq"], L["image"], L["vis"], L["idx"],
              L["counts"], case["cell"],
              **wg.kwargs(case, L["weights"], L["flag"]))
    im = finish(case, x, "lazy residual")
    ref, mag = compose(case, uvw, freq, image, vis, weights, flag)
    close(im, ref, wg.tol(case, 8.0), "chunked residual image",
          scale=(mag + 1e-12)[:, None, None])
    return done(case)


def run_hessian(case):
    f = imp("africanus.gridding.wgridder.dask", "hessian")
    uvw, freq, vis, image, weights, flag, idx, counts = wg.build(case)
    L = lazy(case)
    with sut("lazy hessian"):
        x = f(L["uvw"], L["freq"], L["image"], L["idx"], L["counts"],
              case["cell"], **wg.kwargs(case, L["weights"], L["flag"]))
    im = finish(case, x, "lazy hessian")
    ref, mag = compose(case, uvw, freq, image, None, weights, flag)
    close(im, -ref, wg.tol(case, 8.0), "chunked hessian image",
          scale=(mag + 1e-12)[:, None, None])
    return done(case)


def run_defaults(case):
    m = imp("africanus.gridding.wgridder.dask")
    uvw, freq, vis, image, weights, flag, idx, counts = wg.build(case)
    L = lazy(case)
    case = dict(case, celly=None, wstack=True, eps=1e-5)
    with sut("lazy dirty"):
        d = m.dirty(L["uvw"], L["freq"], L["vis"], L["idx"], L["counts"],
                    case["nx"], case["ny"], case["cell"])
    d = finish(case, d, "lazy dirty")
    ref, mag = wg.ref_dirty(case, uvw, freq, vis, None, None)
    close(d, ref, wg.tol(case), "chunked dirty, default options",
          scale=(mag + 1e-12)[:, None, None])
    with sut("lazy model"):
        v = m.model(L["uvw"], L["freq"], L["image"], L["idx"], L["counts"],
                    case["cell"])
    v = finish(case, v, "lazy model")
    ref, mag, _ = wg.ref_model(case, uvw, freq, image, None, None)
    close(v, ref, wg.tol(case), "chunked model, default options",
          scale=mag + 1e-12)
    with sut("lazy residual"):
        r = m.residual(L["uvw"], L["freq"], L["image"], L["vis"], L["idx"],
                       L["counts"], case["cell"])
    r = finish(case, r, "lazy residual")
    ref, mag = compose(case, uvw, freq, image, vis, None, None)
    close(r, ref, wg.tol(case, 8.0), "chunked residual, default options",
          scale=(mag + 1e-12)[:, None, None])
    with sut("lazy hessian"):
        h = m.hessian(L["uvw"], L["freq"], L["image"], L["idx"], L["counts"],
                      case["cell"])
    h = finish(case, h, "lazy hessian")
    ref, mag = compose(case, uvw, freq, image, None, None, None)
    close(h, -ref, wg.tol(case, 8.0), "chunked hessian, default options",
          scale=(mag + 1e-12)[:, None, None])
    return done(case)


SUBS = [Sub("dirty", gen, run_dirty, 250, 4000),
        Sub("model", gen, run_model, 250, 4000),
        Sub("residual", gen, run_residual, 250, 4000),
        Sub("hessian", gen, run_hessian, 250, 4000),
        Sub("defaults", gen, run_defaults, 80, 1000)]

for _s in SUBS:
    _s.quick *= 3

SUBS += all_histories(SUBS) + scaled(SUBS)
