"""C14: the direct Fourier transforms."""
import numpy as np
from hypothesis import strategies as st
from vlib.core import all_histories, scaled
from vlib.core import strided, sz, Sub, sut, imp, expect, expect_raises, close, rng, \
    frozen, unchanged
from vlib import sched

PROPERTY = "C14"
RULE = ("generated sources, baselines, channels, correlations, flags, sign "
        "conventions and precisions: im_to_vis and vis_to_im against the "
        "explicit sums, adjointness, and chunked dask evaluation in a random "
        "task order; non-trivial: at least two sources and two rows")
C = 2.99792458e8


def gen(draw):
    d = dict(seed=draw(st.integers(0, 2 ** 32 - 1)),
             nsrc=sz(draw, 1, 6, 60), nrow=sz(draw, 1, 8, 150),
             nchan=sz(draw, 1, 4, 40), ncorr=draw(st.integers(1, 4)),
             conv=draw(st.sampled_from(["fourier", "casa"])),
             pflag=draw(st.sampled_from([0.0, 0.2, 0.6, 1.0])),
             zeros=draw(st.booleans()), centre=draw(st.booleans()),
             sched=draw(st.integers(0, 2 ** 32 - 1)))
    for k, n in (("rc", "nrow"), ("sc", "nsrc"), ("fc", "nchan"),
                 ("kc", "ncorr")):
        d[k] = sched.chunks(draw, st, d[n], 3)
    return d


def build(case, im_dt, vis_dt, flt="f8"):
    R = rng(case)
    ns, nr, nc, nk = (case["nsrc"], case["nrow"], case["nchan"],
                      case["ncorr"])
    lm = R.uniform(-0.5, 0.5, (ns, 2))
    if case["centre"]:
        lm[0] = 0
    uvw = R.uniform(-100, 100, (nr, 3))
    freq = np.sort(R.uniform(0.5e9, 2e9, nc))
    im = R.normal(size=(ns, nc, nk))
    if np.dtype(im_dt).kind == "c":
        im = im + 1j * R.normal(size=im.shape)
    if case["zeros"]:
        im[R.uniform(size=im.shape) < 0.4] = 0
    vis = R.normal(size=(nr, nc, nk)) + 1j * R.normal(size=(nr, nc, nk))
    flag = R.uniform(size=vis.shape) < case["pflag"]
    if case["zeros"]:
        vis[flag] = np.nan
    return dict(im=im.astype(im_dt), vis=vis.astype(vis_dt), flag=flag,
                lm=lm.astype(flt), uvw=uvw.astype(flt),
                freq=freq.astype(flt))


def kernel(d, conv):
    """exp(-+ 2 pi i (ul + vm + w(n-1)) f / c), (row, src, chan)"""
    l, m = d["lm"].astype("f8").T
    n = np.sqrt(1 - l * l - m * m)
    ph = d["uvw"].astype("f8") @ np.stack([l, m, n - 1])
    ph = ph[:, :, None] * d["freq"].astype("f8") / C
    return np.exp((-2j if conv == "fourier" else 2j) * np.pi * ph)


def run(im_dt, vis_dt, flt, tol):
    def go(case):
        k = imp("africanus.dft")
        d = build(case, im_dt, vis_dt, flt)
        K = kernel(d, case["conv"])
        conv = case["conv"]
        ins = [d[x] for x in ("im", "vis", "flag", "lm", "uvw", "freq")]
        keep = frozen(*ins)
        with sut("im_to_vis"):
            v = k.im_to_vis(d["im"], d["uvw"], d["lm"], d["freq"],
                            convention=conv)
        wv = np.einsum("rsf,sfc->rfc", K, d["im"])
        sc = 1 + np.abs(d["im"]).sum()
        close(v, wv, tol, "im_to_vis (%s)" % conv, scale=sc)
        with sut("vis_to_im"):
            im = k.vis_to_im(d["vis"], d["uvw"], d["lm"], d["freq"],
                             d["flag"], convention=conv)
        ok = ~d["flag"].any(axis=2)
        vv = np.where(ok[:, :, None], d["vis"], 0)
        wi = np.einsum("rsf,rfc->sfc", K.conj(), vv).real
        sc = 1 + np.nansum(np.abs(d["vis"]))
        close(im, wi, tol, "vis_to_im (%s)" % conv, scale=sc)
        unchanged(ins, keep, "a DFT")
        if flt == "f8":
            with sut("im_to_vis default convention"):
                v2 = k.im_to_vis(d["im"], d["uvw"], d["lm"], d["freq"])
                i2 = k.vis_to_im(d["vis"], d["uvw"], d["lm"], d["freq"],
                                 d["flag"])
            if conv == "fourier":
                close(v2, v, 1e-14, "im_to_vis default convention")
                close(i2, im, 1e-14, "vis_to_im default convention")
        rt = np.result_type
        expect(v.dtype == rt("c8", im_dt, flt), "im_to_vis: %s from %s and "
               "%s", v.dtype, im_dt, flt)
        expect(im.dtype == rt(np.zeros(1, vis_dt).real.dtype, flt),
               "vis_to_im: %s from %s and %s", im.dtype, vis_dt, flt)
        return case["nsrc"] > 1 and case["nrow"] > 1, [conv]
    return go


def run_dtype(case):
    """a requested precision, eager and lazy"""
    import dask.array as da
    k, m = imp("africanus.dft"), imp("africanus.dft.dask")
    flt = case["flt"]
    d = build(case, "c16" if flt == "f8" else "c8",
              "c16" if flt == "f8" else "c8", flt)
    K = kernel(d, case["conv"])
    real = dict(f4=np.float32, f8=np.float64)[case["out"]]
    cplx = dict(f4=np.complex64, f8=np.complex128)[case["out"]]
    wv = np.einsum("rsf,sfc->rfc", K, d["im"])
    ok = ~d["flag"].any(axis=2)
    wi = np.einsum("rsf,rfc->sfc", K.conj(), np.where(ok[:, :, None], d["vis"], 0)).real
    sv, si = 1 + np.abs(d["im"]).sum(), 1 + np.nansum(np.abs(d["vis"]))
    a1, a2 = (d["uvw"], d["lm"], d["freq"]), (d["uvw"], d["lm"], d["freq"],
                                              d["flag"])
    with sut("DFTs with a dtype"):
        v = k.im_to_vis(d["im"], *a1, convention=case["conv"], dtype=cplx)
        i = k.vis_to_im(d["vis"], *a2, convention=case["conv"], dtype=real)
    rc, sc, fc, kc = [tuple(case[k]) for k in ("rc", "sc", "fc", "kc")]
    A, ns = da.from_array, case["nsrc"]
    uvw, freq = A(d["uvw"], chunks=(rc, 3)), A(d["freq"], chunks=(fc,))
    with sut("dask DFTs with a dtype"):
        dv = m.im_to_vis(A(d["im"], chunks=(ns, fc, kc)), uvw,
                         A(d["lm"], chunks=(ns, 2)), freq,
                         convention=case["conv"], dtype=cplx)
        di = m.vis_to_im(A(d["vis"], chunks=(rc, fc, kc)), uvw,
                         A(d["lm"], chunks=(sc, 2)), freq,
                         A(d["flag"], chunks=(rc, fc, kc)),
                         convention=case["conv"], dtype=real)
        gv, gi = sched.compute(dv, di, seed=case["sched"])
    tol = 1e-10 if flt == case["out"] == "f8" else 2e-3 if flt == "f4" \
        else 1e-5
    for g, w, s, dt, what in ((v, wv, sv, cplx, "im_to_vis"),
                              (i, wi, si, real, "vis_to_im"),
                              (gv, wv, sv, cplx, "dask im_to_vis"),
                              (gi, wi, si, real, "dask vis_to_im")):
        expect(g.dtype == dt, "%s(dtype=%s): %s", what, dt.__name__, g.dtype)
        close(g, w, tol, "%s(dtype=%s)" % (what, dt.__name__), scale=s)
    expect(dv.dtype == cplx and di.dtype == real, "declared dtypes %s %s",
           dv.dtype, di.dtype)
    return flt != case["out"] and case["nrow"] > 1, [flt + case["out"]]


def gen_dtype(draw):
    c = gen(draw)
    c["flt"], c["out"] = draw(st.sampled_from(
        [("f8", "f4"), ("f8", "f8"), ("f4", "f8")]))
    return c


def run_dask(case):
    import dask.array as da
    m = imp("africanus.dft.dask")
    d = build(case, "c16", "c16")
    K = kernel(d, case["conv"])
    rc, sc, fc, kc = [tuple(case[k]) for k in ("rc", "sc", "fc", "kc")]
    A = da.from_array
    ns = case["nsrc"]
    uvw, freq = A(d["uvw"], chunks=(rc, 3)), A(d["freq"], chunks=(fc,))
    with sut("building the dask DFT graphs"):
        v = m.im_to_vis(A(d["im"], chunks=(ns, fc, kc)), uvw,
                        A(d["lm"], chunks=(ns, 2)), freq,
                        convention=case["conv"])
        i = m.vis_to_im(A(d["vis"], chunks=(rc, fc, kc)), uvw,
                        A(d["lm"], chunks=(sc, 2)), freq,
                        A(d["flag"], chunks=(rc, fc, kc)),
                        convention=case["conv"])
    with sut("computing the dask DFTs"):
        gv, gi = sched.compute(v, i, seed=case["sched"])
    wv = np.einsum("rsf,sfc->rfc", K, d["im"])
    ok = ~d["flag"].any(axis=2)
    wi = np.einsum("rsf,rfc->sfc", K.conj(), np.where(ok[:, :, None], d["vis"], 0)).real
    close(gv, wv, 1e-10, "dask im_to_vis", scale=1 + np.abs(d["im"]).sum())
    close(gi, wi, 1e-10, "dask vis_to_im", scale=1 + np.nansum(np.abs(d["vis"])))
    for a, g, n in ((v, gv, "im_to_vis"), (i, gi, "vis_to_im")):
        expect(a.shape == g.shape and a.dtype == g.dtype,
               "dask %s declares %s %s but holds %s %s", n, a.shape, a.dtype,
               g.shape, g.dtype)
    return len(rc) * len(fc) * len(kc) * len(sc) > 1, []


def gen_bad(draw):
    c = gen(draw)
    c["kind"] = draw(st.sampled_from(["conv", "conv_adj", "lm", "image",
                                      "ifreq", "uvw", "vfreq", "flags"]))
    c["nsrc"] = draw(st.integers(2, 4))
    c["nrow"] = draw(st.integers(2, 4))
    c["nchan"] = draw(st.integers(2, 4))
    c["name"] = draw(st.sampled_from(["", "Fourier", "CASA", "fft", "casa "]))
    return c


def run_bad(case):
    import dask.array as da
    k, m = imp("africanus.dft"), imp("africanus.dft.dask")
    d = build(case, "f8", "c16")
    kind = case["kind"]
    if kind.startswith("conv"):
        if kind == "conv":
            f = (lambda: k.im_to_vis(d["im"], d["uvw"], d["lm"], d["freq"],
                                     convention=case["name"]))
        else:
            f = (lambda: k.vis_to_im(d["vis"], d["uvw"], d["lm"], d["freq"],
                                     d["flag"], convention=case["name"]))
        expect_raises((ValueError,), "convention %r" % case["name"], f)
        return True, [kind]
    ch = dict(lm=-1, image=-1, ifreq=-1, uvw=-1, vfreq=-1, flags=-1)
    ch[kind] = 1
    A = da.from_array
    im = A(d["im"], chunks=(ch["image"], -1, -1))
    lm = A(d["lm"], chunks=(ch["lm"], -1))
    freq = A(d["freq"], chunks=(1 if kind in ("ifreq", "vfreq") else -1,))
    uvw = A(d["uvw"], chunks=(ch["uvw"], -1))
    vis = A(d["vis"], chunks=(-1, -1, -1))
    fl = A(d["flag"], chunks=(ch["flags"], -1, -1))
    if kind in ("lm", "image", "ifreq"):
        f = (lambda: m.im_to_vis(im, uvw, lm, freq))
    else:
        f = (lambda: m.vis_to_im(vis, uvw, lm, freq, fl))
    expect_raises((ValueError,), "%s chunked differently" % kind, f)
    return True, [kind]


SUBS = [Sub("double", gen, run("f8", "c16", "f8", 1e-10), 200, 3000),
        Sub("complex_image", gen, run("c16", "c16", "f8", 1e-10), 200, 3000),
        Sub("mixed", gen, run("f4", "c8", "f8", 1e-4), 100, 1500),
        Sub("dask", gen, run_dask, 100, 1500),
        Sub("dtypes", gen_dtype, run_dtype, 60, 800),
        Sub("rejects", gen_bad, run_bad, 80, 500)]

SUBS += [strided(s, 30, 400) for s in SUBS if s.name in
         ['double', 'complex_image']]

for _s in SUBS:
    _s.quick *= 2

SUBS += all_histories(SUBS) + scaled(SUBS)
