"""C30: the lazy wrappers of the NIFTY gridder."""
import pickle

import numpy as np
from hypothesis import strategies as st
from vlib.core import all_histories, scaled
from vlib.core import sz, Sub, sut, imp, expect, expect_raises, close, rng, \
    frozen, unchanged
from vlib import nifty, sched

PROPERTY = "C30"
RULE = ("generated visibilities, baselines, flags, weights, w ranges and "
        "grid configurations, cut into random row, correlation and stream "
        "chunks and computed in random order, on a stand-in for the NIFTY "
        "package, against the same operation on the whole data set; "
        "non-trivial: more than one row chunk and correlation")


def gen(draw):
    nrow = sz(draw, 1, 9, 60)
    ncorr = draw(st.integers(1, 4))
    return dict(seed=draw(st.integers(0, 2 ** 32 - 1)), nrow=nrow,
                nchan=sz(draw, 1, 4, 15), ncorr=ncorr,
                nx=draw(st.integers(2, 6)), ny=draw(st.integers(2, 6)),
                px=draw(st.sampled_from([.5, 1.0, 2.0])),
                py=draw(st.sampled_from([.5, 1.5])),
                rc=sched.chunks(draw, st, nrow, 6),
                kc=sched.chunks(draw, st, ncorr, 3),
                streams=draw(st.sampled_from([None, 1, 2, 3, 7])),
                w=draw(st.sampled_from([None, [-1.0, 1.0], [0.0, 1e30]])),
                flags=draw(st.sampled_from([0.0, .3, 1.0])),
                twin=draw(st.sampled_from(["", "wgt", "vis", "flag", "uvw",
                                           "w", "streams", "config"])),
                sched=draw(st.integers(0, 2 ** 32 - 1)))


def whole(case, uvw, freq, vis, flag, wgt, nu, nv, px, py, wmin, wmax):
    """the grid of the whole data set, pixels and samples used"""
    u, v, w = nifty.pixels(uvw, freq, nu, nv, px, py)
    use = ~flag & ((w >= wmin) & (w < wmax))[..., None]
    want = np.zeros((nu, nv, case["ncorr"]), complex)
    for r in range(case["nrow"]):
        for c in range(case["nchan"]):
            want[u[r, c], v[r, c]] += np.where(use[r, c], vis[r, c]
                                               * wgt[r, c], 0)
    return want, u, v, use


def twins(case, m, gc, z, want, arrays, rc, kc, kw, R):
    """computed together with the grid of nearly the same data"""
    import dask.array as da
    uvw, freq, vis, flag, wgt = arrays
    t, px = case["twin"], case["px"]
    streams, kw = case["streams"], dict(kw)
    if t == "wgt":
        wgt = R.uniform(0, 2, wgt.shape)
    elif t == "vis":
        vis = vis * 1j
    elif t == "flag":
        flag = R.uniform(size=flag.shape) < .5
    elif t == "uvw":
        uvw = uvw[::-1].copy()
    elif t == "w":
        kw = dict(wmin=-2.0, wmax=3.0)
    elif t == "streams":
        streams = {None: 2, 1: 2, 2: None, 3: 1, 7: 1}[streams]
    elif t == "config":
        px = px * 1.25
        with sut("grid_config"):
            gc = m.grid_config(case["nx"], case["ny"], 1e-7, px, case["py"])
    what = "grid computed together with one of other %s" % t
    A = da.from_array
    with sut(what):
        z2 = m.grid(A(vis, chunks=(rc, -1, kc)), A(uvw, chunks=(rc, 3)),
                    A(flag, chunks=(rc, -1, kc)), A(wgt, chunks=(rc, -1, kc)),
                    A(freq, chunks=-1), gc, streams=streams, **kw)
        o, o2 = sched.compute(z, z2, seed=case["sched"])
    w2 = whole(case, uvw, freq, vis, flag, wgt, gc.object.Nu(),
               gc.object.Nv(), px, case["py"], kw.get("wmin", -1e30),
               kw.get("wmax", 1e30))[0]
    for a, b in ((o, want), (o2, w2)):
        close(a, b, 1e-11, what, scale=1 + np.abs(b).max())


def run(case):
    import dask.array as da
    nifty.install()
    m = imp("africanus.gridding.nifty.dask")
    R = rng(case)
    nr, nc, nk = case["nrow"], case["nchan"], case["ncorr"]
    cfg = (case["nx"], case["ny"], 1e-7, case["px"], case["py"])
    with sut("grid_config"):
        gc = m.grid_config(*cfg)
        gc2 = pickle.loads(pickle.dumps(gc))
    for g, w in ((gc, "the configuration"), (gc2, "an unpickled one")):
        expect(g.object.a == cfg, "%s of %s is %s", w, cfg, g.object.a)
    freq = np.sort(R.uniform(1e8, 5e8, nc))
    uvw = R.uniform(-6, 6, (nr, 3))
    vis = R.normal(size=(nr, nc, nk)) + 1j * R.normal(size=(nr, nc, nk))
    flag = R.uniform(size=vis.shape) < case["flags"]
    wgt = R.uniform(0, 2, vis.shape)
    wmin, wmax = case["w"] or (-1e30, 1e30)
    kw = dict(wmin=wmin, wmax=wmax) if case["w"] else {}
    nu, nv = gc.object.Nu(), gc.object.Nv()
    A = da.from_array
    rc, kc = tuple(case["rc"]), tuple(case["kc"])
    ins = (uvw, freq, vis, flag, wgt)
    keep = frozen(*ins)
    duvw, dfreq = A(uvw, chunks=(rc, 3)), A(freq, chunks=nc)
    dv, df, dw = (A(x, chunks=(rc, nc, kc)) for x in (vis, flag, wgt))
    # the whole data set
    want, u, v, use = whole(case, uvw, freq, vis, flag, wgt, nu, nv,
                            case["px"], case["py"], wmin, wmax)
    what = "grid of row chunks %s, streams %s" % (rc, case["streams"])
    with sut(what):
        z = m.grid(dv, duvw, df, dw, dfreq, gc, streams=case["streams"], **kw)
        d = m.dirty(z, gc2)
    check(z, want, what, case)
    if case["twin"]:
        twins(case, m, gc, z, want, ins, rc, kc, kw, R)
    im = np.fft.fft2(want, axes=(0, 1))[:case["nx"], :case["ny"]].real * \
        case["px"]
    check(d, im, "dirty image of " + what, case)
    # and back
    model = R.normal(size=(case["nx"], case["ny"], nk)) + \
        1j * R.normal(size=(case["nx"], case["ny"], nk))
    with sut("model and degrid"):
        g = m.model(A(model, chunks=(-1, -1, kc)), gc)
        b = m.degrid(g, duvw, df, dw, dfreq, gc2, **kw)
    wg = np.fft.fft2(model, (nu, nv), axes=(0, 1)) * case["py"]
    check(g, wg, "model", case)
    wb = np.where(use, wg[u, v], 0)
    check(b, wb, "degrid of row chunks %s" % (rc,), case)
    unchanged(ins, keep, "gridding")
    if nc > 1:
        bad = A(freq, chunks=1)
        expect_raises((ValueError,), "chunked channels", lambda:
                      m.grid(dv, duvw, df, dw, bad, gc))
        expect_raises((ValueError,), "chunked channels", lambda:
                      m.degrid(g, duvw, df, dw, bad, gc))
    return len(rc) > 1 and nk > 1, ["streams %s" % case["streams"]]


def check(z, want, what, case):
    with sut("computing " + what):
        o, = sched.compute(z, seed=case["sched"])
    close(o, want, 1e-11, what, scale=1 + np.abs(want).max())
    expect(z.shape == want.shape, "%s declares shape %s, %s is computed",
           what, z.shape, want.shape)
    expect(z.dtype == o.dtype, "%s declares %s, computes %s", what, z.dtype,
           o.dtype)


SUBS = [Sub("nifty", gen, run, 250, 3000)]

SUBS += all_histories(SUBS) + scaled(SUBS)
