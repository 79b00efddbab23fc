"""C19: source spectra, source shapes and WSClean component prediction."""
import numpy as np
from hypothesis import strategies as st
from vlib.core import all_histories, amp, scaled
from vlib.core import strided, sz, Sub, sut, imp, expect, expect_raises, close, rng, \
    frozen, unchanged
from vlib import sched

PROPERTY = "C19"
RULE = ("generated sources, spectra, shapes, baselines and frequencies "
        "against the documented formulas, in every polynomial base, eager "
        "and in random chunks computed in random order; malformed requests "
        "must raise; non-trivial: at least two sources and two channels")
C = 2.99792458e8


def lazy_same(name, z, seed, want, tol=1e-15):
    with sut("computing dask " + name):
        g, = sched.compute(z, seed=seed)
    close(g, want, tol, "dask " + name)
    expect(z.shape == g.shape and z.dtype == g.dtype, "dask %s declares %s "
           "%s but holds %s %s", name, z.shape, z.dtype, g.shape, g.dtype)


def base_gen(draw):
    c = dict(seed=draw(st.integers(0, 2 ** 32 - 1)),
             nsrc=sz(draw, 1, 6, 100), nchan=sz(draw, 1, 5, 60),
             nrow=sz(draw, 1, 6, 60), nspi=sz(draw, 1, 4, 8),
             npol=draw(st.integers(1, 4)),
             sched=draw(st.integers(0, 2 ** 32 - 1)))
    for k, n in (("sc", "nsrc"), ("fc", "nchan"), ("rc", "nrow"),
                 ("pc", "npol")):
        c[k] = sched.chunks(draw, st, c[n], 3)
    return c


BASES = ["std", "log", "log10"]


def gen_spec(form):
    def gen(draw):
        c = base_gen(draw)
        if form == "none":
            c["base"] = None
        elif form in ("str", "int"):
            c["base"] = draw(st.integers(0, 2))
        else:
            # as many as there are polarisations, or fewer: the last one
            # stands for the rest
            c["base"] = draw(st.lists(st.integers(0, 2), min_size=1,
                                      max_size=c["npol"]))
        c["neg"] = draw(st.booleans())
        return c
    return gen


def run_spec(form, pol, dts=("f8",) * 4):
    def run(case):
        import dask.array as da
        m = imp("africanus.model.spectral")
        md = imp("africanus.model.spectral.dask")
        R = rng(case)
        s, f, k, p = [case[x] for x in ("nsrc", "nchan", "nspi", "npol")]
        b = case["base"]
        bl = (b + [b[-1]] * p)[:p] if isinstance(b, list) else [b or 0] * p
        if not pol:
            p, bl = 1, bl[:1]
        stokes = R.uniform(.1, 5, (s, p)) * amp()
        if case["neg"]:
            neg = (R.uniform(size=(s, p)) < .5) & (np.array(bl) == 0)
            stokes = np.where(neg, -stokes, stokes)
        spi = R.uniform(-1.5, 1.5, (s, k, p))
        rf = R.uniform(.6e9, 1.6e9, s)
        fr = R.uniform(.5e9, 2e9, f)
        stokes, spi, rf, fr = [x.astype(d) for x, d in zip(
            (stokes, spi, rf, fr), dts)]
        ratio = fr.astype("f8")[None, :] / rf.astype("f8")[:, None]
        w = np.empty((s, f, p))
        for q in range(p):
            S, A = stokes[:, q].astype("f8"), spi[:, :, q].astype("f8")
            if bl[q] == 0:
                w[:, :, q] = S[:, None] * ratio ** A.sum(1)[:, None]
            else:
                lg = np.log(ratio) if bl[q] == 1 else np.log10(ratio)
                e = sum(A[:, i, None] * lg ** (i + 1) for i in range(k))
                w[:, :, q] = S[:, None] * (np.exp(e) if bl[q] == 1
                                           else 10 ** e)
        if not pol:
            stokes, spi, w = stokes[:, 0], spi[:, :, 0], w[:, :, 0]
        kw = {}
        if b is not None:
            names = form in ("str", "strlist")
            kw["base"] = ([BASES[x] if names else x for x in b]
                          if isinstance(b, list) else
                          BASES[b] if names else b)
        ins = (stokes, spi, rf, fr)
        keep = frozen(*ins)
        kw0 = str(kw)
        with sut("spectral_model base=%s" % (kw.get("base"),)):
            o = m.spectral_model(*ins, **kw)
        unchanged(ins, keep, "spectral_model")
        expect(str(kw) == kw0, "spectral_model changed the list of bases")
        dt = np.result_type(*dts)
        expect(o.dtype == dt, "spectral_model: dtype %s from %s", o.dtype,
               dts)
        close(o / np.abs(w), w / np.abs(w), 1e-11 if set(dts) == {"f8"}
              else 5e-5, "spectral_model base=%s" % (kw.get("base"),))
        S, F, P = [tuple(case[x]) for x in ("sc", "fc", "pc")]
        P = (P,) if pol else ()
        A = da.from_array
        with sut("building dask spectral_model"):
            z = md.spectral_model(A(stokes, chunks=(S,) + P),
                                  A(spi, chunks=(S, k) + P),
                                  A(rf, chunks=(S,)), A(fr, chunks=(F,)),
                                  **kw)
        lazy_same("spectral_model base=%s" % (kw.get("base"),), z,
                  case["sched"], o, 1e-14)
        if k > 1:
            expect_raises((ValueError,), "chunked spi", lambda:
                          md.spectral_model(
                              A(stokes, chunks=(S,) + P),
                              A(spi, chunks=(S, 1) + P),
                              A(rf, chunks=(S,)), A(fr, chunks=(F,)), **kw))
        return min(s, f) > 1, ["".join(map(str, bl))]
    return run


def gen_badspec(draw):
    c = base_gen(draw)
    c["kind"] = draw(st.sampled_from(["base", "ndim", "npol", "int"]))
    c["nspol"] = draw(st.integers(1, 5))
    c["name"] = draw(st.sampled_from(["", "ln", "Log", "log2"]))
    return c


def run_badspec(case):
    m = imp("africanus.model.spectral")
    s, k, p = case["nsrc"], case["nspi"], case["npol"]
    rf, fr = np.full(s, 1e9), np.linspace(1e9, 2e9, case["nchan"])
    if case["kind"] == "base":
        f = (lambda: m.spectral_model(np.ones((s, p)), np.ones((s, k, p)), rf,
                                      fr, base=case["name"]))
    elif case["kind"] == "int":
        f = (lambda: m.spectral_model(np.ones((s, p)), np.ones((s, k, p)), rf,
                                      fr, base=3 + s))
    elif case["kind"] == "ndim":
        f = (lambda: m.spectral_model(np.ones((s, p)), np.ones((s, k)), rf,
                                      fr))
    else:
        if case["nspol"] == p:
            return False, []
        f = (lambda: m.spectral_model(np.ones((s, p)),
                                      np.ones((s, k, case["nspol"])), rf, fr))
    import numba
    expect_raises((ValueError, numba.core.errors.TypingError),
                  "spectral_model (%s)" % case["kind"], f)
    return True, [case["kind"]]


def gauss_ref(uvw, fr, gp):
    """Fourier transform of an elliptical Gaussian of unit flux, with FWHM
    axes emaj (along the position angle from m towards l) and emin."""
    emaj, emin, pa = gp.T
    u = uvw[None, :, 0, None] * fr / C
    v = uvw[None, :, 1, None] * fr / C
    sn, cs = np.sin(pa)[:, None, None], np.cos(pa)[:, None, None]
    k = 1 / (2 * np.sqrt(2 * np.log(2)))
    smaj, smin = (emaj * k)[:, None, None], (emin * k)[:, None, None]
    along, across = u * sn + v * cs, u * cs - v * sn
    e = -2 * np.pi ** 2 * ((smaj * along) ** 2 + (smin * across) ** 2)
    return np.exp(e)


def gauss_params(R, n, case):
    emaj = R.uniform(0, .02, n)
    # the axes may come in either order, and be zero
    emin = R.uniform(0, .02, n)
    emin = np.where(R.uniform(size=n) < .6, emaj * R.uniform(0, 1, n), emin)
    if case["nsrc"] > 1:
        emaj[0], emin[0] = 0, 0
    if case["nsrc"] > 2:
        emin[1] = 0
    if case["nsrc"] > 3:
        emin[2] = emaj[2]
    return np.stack([emaj, emin, R.uniform(-4, 4, n)], 1)


def run_gauss(dts, tol):
    def run(case):
        import dask.array as da
        m = imp("africanus.model.shape")
        md = imp("africanus.model.shape.dask")
        R = rng(case)
        uvw = R.uniform(-30, 30, (case["nrow"], 3)).astype(dts[0])
        fr = R.uniform(.5e9, 2e9, case["nchan"]).astype(dts[1])
        gp = gauss_params(R, case["nsrc"], case).astype(dts[2])
        keep = frozen(uvw, fr, gp)
        with sut("gaussian"):
            o = m.gaussian(uvw, fr, gp)
        unchanged((uvw, fr, gp), keep, "gaussian")
        expect(o.dtype == np.result_type(*dts), "gaussian: dtype %s from %s",
               o.dtype, dts)
        close(o, gauss_ref(*[x.astype("f8") for x in (uvw, fr, gp)]), tol,
              "gaussian shape")
        S, F, Rr = [tuple(case[x]) for x in ("sc", "fc", "rc")]
        A = da.from_array
        with sut("building dask gaussian"):
            z = md.gaussian(A(uvw, chunks=(Rr, 3)), A(fr, chunks=(F,)),
                            A(gp, chunks=(S, 3)))
        lazy_same("gaussian", z, case["sched"], o)
        return min(case["nsrc"], case["nchan"]) > 1, []
    return run


def gen_ws(draw):
    c = base_gen(draw)
    c["log"] = draw(st.sampled_from(["array", "array", "none", "all"]))
    c["scalar"] = draw(st.booleans())
    c["types"] = draw(st.lists(st.sampled_from(["POINT", "GAUSSIAN"]),
                               min_size=6, max_size=6))
    c["bad"] = draw(st.sampled_from(["", "point", "DISK", "GAUSS"]))
    return c


def ws_build(case, dt="f8"):
    R = rng(case)
    s, f, k = case["nsrc"], case["nchan"], case["nspi"]
    lp = {"array": R.uniform(size=s) < .5, "none": np.zeros(s, bool),
          "all": np.ones(s, bool)}[case["log"]]
    flux = amp() * R.uniform(.1, 3, s) * np.where(lp, 1, R.choice([-1, 1], s))
    coeffs = R.normal(size=(s, k))
    coeffs[lp] /= amp()
    rf = R.uniform(.6e9, 1.6e9, s)
    fr = R.uniform(.5e9, 2e9, f)
    flux, coeffs, rf, fr = [x.astype(dt) for x in (flux, coeffs, rf, fr)]
    x = fr.astype("f8")[None, :] / rf.astype("f8")[:, None]
    o = flux[:, None] + sum(coeffs[:, i, None] * (x - 1) ** (i + 1)
                            for i in range(k))
    lo = np.abs(flux)[:, None] * np.exp(sum(
        coeffs[:, i, None] * np.log(x) ** (i + 1) for i in range(k)))
    return flux, coeffs, lp, rf, fr, np.where(lp[:, None], lo, o)


def run_ws(dt, tol):
    def run(case):
        import dask.array as da
        m = imp("africanus.model.wsclean")
        md = imp("africanus.model.wsclean.dask")
        flux, coeffs, lp, rf, fr, w = ws_build(case, dt)
        lpa = lp
        if case["scalar"] and case["log"] != "array":
            lpa = case["log"] == "all"
        keep = frozen(flux, coeffs, lp, rf, fr)
        with sut("wsclean spectra"):
            o = m.spectra(flux, coeffs, lpa, rf, fr)
        unchanged((flux, coeffs, lp, rf, fr), keep, "wsclean spectra")
        expect(o.dtype == np.dtype(dt), "wsclean spectra: dtype %s", o.dtype)
        close(o, w, tol, "wsclean spectra")
        S, F = tuple(case["sc"]), tuple(case["fc"])
        A = da.from_array
        k = case["nspi"]
        with sut("building dask wsclean spectra"):
            z = md.spectra(A(flux, chunks=(S,)), A(coeffs, chunks=(S, k)),
                           lpa if isinstance(lpa, bool) else
                           A(lpa, chunks=(S,)), A(rf, chunks=(S,)),
                           A(fr, chunks=(F,)))
        lazy_same("wsclean spectra", z, case["sched"], o)
        if k > 1:
            expect_raises((ValueError,), "chunked coefficients",
                          lambda: md.spectra(
                              A(flux, chunks=(S,)),
                              A(coeffs, chunks=(S, 1)), A(lp, chunks=(S,)),
                              A(rf, chunks=(S,)), A(fr, chunks=(F,))))
        if lp.any():
            bad = np.where(lp, -np.abs(flux), flux)
            expect_raises((ValueError,), "negative flux of a logarithmic "
                          "polynomial", lambda: m.spectra(bad, coeffs, lp, rf,
                                                          fr))
        if case["nsrc"] > 1:
            for i in range(4):
                a = [flux, coeffs, lp, rf]
                a[i] = a[i][:-1]
                expect_raises((ValueError,), "wsclean spectra of inconsistent "
                              "lengths", lambda: m.spectra(*(a + [fr])))
        return min(case["nsrc"], case["nchan"]) > 1, [case["log"]]
    return run


def run_wspredict(dt, tol):
    def run(case):
        import dask.array as da
        m, md = imp("africanus.rime"), imp("africanus.rime.dask")
        flux, coeffs, lp, rf, fr, w = ws_build(case, dt)
        R = rng(case, 5)
        s = case["nsrc"]
        b = 300 if dt == "f8" else 3
        uvw = R.uniform(-b, b, (case["nrow"], 3)).astype(dt)
        lm = R.uniform(-.5, .5, (s, 2)).astype(dt)
        gp = gauss_params(R, s, case)
        gp[:, :2] *= 10.0 / b
        gp = gp.astype(dt)
        ty = np.array((case["types"] * 20)[:s])
        ins = (uvw, lm, ty, flux, coeffs, lp, rf, gp, fr)
        keep = frozen(*[x for x in ins if x is not ty])
        with sut("wsclean_predict"):
            o = m.wsclean_predict(*ins)
        unchanged([x for x in ins if x is not ty], keep, "wsclean_predict")
        expect(o.dtype == np.result_type(dt, "c8"),
               "wsclean_predict: dtype %s from %s", o.dtype, dt)
        l, mm = lm.astype("f8").T
        n = np.sqrt(1 - l * l - mm * mm) - 1
        ph = uvw.astype("f8") @ np.stack([l, mm, n])
        ph = 2 * np.pi * ph.T[:, :, None] * fr.astype("f8") / C
        sh = np.where((ty == "GAUSSIAN")[:, None, None], gauss_ref(
            uvw.astype("f8"), fr.astype("f8"), gp.astype("f8")), 1.0)
        v = np.einsum("srf,sf->rf", np.exp(1j * ph) * sh, w)[..., None]
        close(o, v, tol, "wsclean_predict", scale=1 + np.abs(w).sum())
        S, F, Rr = [tuple(case[x]) for x in ("sc", "fc", "rc")]
        k = case["nspi"]
        ch = [(Rr, 3), (S, 2), (S,), (S,), (S, k), (S,), (S,), (S, 3), (F,)]
        args = [da.from_array(x, chunks=c) for x, c in zip(ins, ch)]
        with sut("building dask wsclean_predict"):
            z = md.wsclean_predict(*args)
        lazy_same("wsclean_predict", z, case["sched"], o, 10 * tol)
        if k > 1:
            args[4] = args[4].rechunk((S, 1))
            expect_raises((ValueError,), "chunked coefficients",
                          lambda: md.wsclean_predict(*args))
        bad = ty.astype("U8")
        bad[-1] = case["bad"]
        a2 = list(ins)
        a2[2] = bad
        expect_raises((ValueError,), "source type %r" % case["bad"],
                      lambda: m.wsclean_predict(*a2))
        return min(s, case["nchan"], case["nrow"]) > 1, \
            sorted(set((case["types"] * 20)[:s]))
    return run


SUBS = [Sub("spec_default", gen_spec("none"), run_spec("none", True), 80,
            1000),
        Sub("spec_nopol", gen_spec("str"), run_spec("str", False), 80, 1200),
        Sub("spec_str", gen_spec("str"), run_spec("str", True), 80, 1200),
        Sub("spec_int", gen_spec("int"), run_spec("int", True), 80, 1200),
        Sub("spec_list", gen_spec("intlist"), run_spec("intlist", True), 100,
            1200),
        Sub("spec_strlist", gen_spec("strlist"), run_spec("strlist", True),
            60, 600),
        Sub("spec_mixed", gen_spec("int"),
            run_spec("int", True, ("f4", "f8", "f8", "f4")), 60, 800),
        Sub("spec_rejects", gen_badspec, run_badspec, 60, 400),
        Sub("gauss", base_gen, run_gauss(("f8",) * 3, 1e-12), 100, 2000),
        Sub("gauss_mixed", base_gen, run_gauss(("f4", "f8", "f4"), 1e-4), 60,
            800),
        Sub("wsclean", gen_ws, run_ws("f8", 1e-11), 120, 2000),
        Sub("wsclean_single", gen_ws, run_ws("f4", 1e-4), 60, 800),
        Sub("wspredict", gen_ws, run_wspredict("f8", 1e-10), 100, 1500),
        Sub("wspredict_single", gen_ws, run_wspredict("f4", 2e-4), 60, 600)]

SUBS += [strided(s, 30, 400) for s in SUBS if s.name in
         ['spec_nopol', 'spec_list', 'gauss', 'wsclean', 'wspredict']]

for _s in SUBS:
    _s.quick *= 2

SUBS += all_histories(SUBS) + scaled(SUBS, skip=("gauss", "gauss_mixed"))
