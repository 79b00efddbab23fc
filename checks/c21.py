"""C21: fitting spectral indices."""
import numpy as np
from hypothesis import strategies as st
from vlib.core import all_histories
from vlib.core import strided, sz, Sub, sut, imp, expect, expect_raises, close, rng, \
    frozen, unchanged
from vlib import sched

PROPERTY = "C21"
RULE = ("generated power-law spectra seen through a beam, weighted, noise "
        "free (the fit has to return the spectrum) and noisy (the fit has to "
        "be a stationary point of the weighted least squares and quote its "
        "variances), eager and in random chunks of components; non-trivial: "
        "two or more components")


def gen(draw):
    n = sz(draw, 1, 6, 150)
    return dict(seed=draw(st.integers(0, 2 ** 32 - 1)), ncomp=n,
                nchan=sz(draw, 3, 12, 60),
                noise=draw(st.sampled_from([0.0, 0.0, 1e-3, 3e-2])),
                scale=draw(st.sampled_from([1.0, 1.0, 1e-2, 1e-4, 300.0])),
                beam=draw(st.booleans()), guess=draw(st.sampled_from(
                    ["none", "alpha", "flux", "both"])),
                wrange=draw(st.sampled_from([0.0, 1.0, 3.0])),
                zero_w=draw(st.booleans()),
                desc=draw(st.booleans()),
                ref=draw(st.sampled_from(["mid", "low", "high", "channel",
                                          "tie"])),
                sc=sched.chunks(draw, st, n, 3),
                sched=draw(st.integers(0, 2 ** 32 - 1)))


def build(case, dt):
    R = rng(case)
    n, f = case["ncomp"], case["nchan"]
    fr = 1e9 * np.linspace(1, R.uniform(1.5, 2.2), f)
    if case["ref"] != "tie":
        fr[1:-1] += R.uniform(-.4, .4, f - 2) * (fr[1] - fr[0])
    if case["desc"]:
        fr = fr[::-1].copy()
    f0 = {"mid": fr.mean(), "low": fr.min() * .9, "high": fr.max() * 1.1,
          "channel": fr[R.randint(f)], "tie": .5 * (fr[0] + fr[1])}[
              case["ref"]]
    alpha = R.uniform(-2.0, 1.0, n)
    i0 = R.uniform(.5, 5, n) * R.choice([1, 1, -1], n)
    i0 = i0 * case.get("scale", 1.0)
    beam = R.uniform(.6, 1, (n, f)) if case["beam"] else None
    data = i0[:, None] * (fr / f0) ** alpha[:, None]
    if beam is not None:
        data = data * beam
    data = data + case.get("scale", 1.0) * case["noise"] * R.normal(size=data.shape)
    w = 10 ** R.uniform(0, case["wrange"], f)
    if case["zero_w"] and f > 4:
        w[R.randint(f)] = 0
    d = dict(data=data, w=w, fr=fr, alpha=alpha, i0=i0, beam=beam)
    for k in ("data", "w", "fr", "beam"):
        if d[k] is not None:
            d[k] = d[k].astype(dt)
    d["f0"] = float(f0)
    g = case["guess"]
    d["ai"] = (alpha + R.uniform(-.3, .3, n)).astype(dt) if g in (
        "alpha", "both") else None
    d["ii"] = (i0 * R.uniform(.8, 1.2, n)).astype(dt) if g in (
        "flux", "both") else None
    return d


def converges(d, alpha, i0):
    """Components on which plain Gauss-Newton steps from the given start
    settle: it is no globally convergent method."""
    n = len(d["alpha"])
    x = d["fr"].astype("f8") / d["f0"]
    b = np.ones(d["data"].shape) if d["beam"] is None else d["beam"]
    near = np.argmin(np.abs(d["fr"].astype("f8") - d["f0"]))
    alpha = np.full(n, -.7) if alpha is None else alpha.astype("f8")
    i0 = d["data"][:, near] / b[:, near] if i0 is None else i0.astype("f8")
    ok = np.zeros(n, bool)
    for c in range(n):
        a, i = float(alpha[c]), float(i0[c])
        for k in range(40):
            j1 = b[c] * x ** a
            J = np.stack([i * j1 * np.log(x), j1])
            H = (J * d["w"]) @ J.T
            if np.linalg.det(H) < 1e-3 * H[0, 0] * H[1, 1] or abs(a) > 6:
                break
            da, di = np.linalg.solve(H, (J * d["w"]) @ (d["data"][c] -
                                                        i * j1))
            a, i = a + da, i + di
            if abs(da) + abs(di) < 1e-4:
                ok[c] = True
                break
    return ok


def run(dt, tol):
    def go(case):
        import dask.array as da
        m = imp("africanus.model.spi")
        md = imp("africanus.model.spi.dask")
        if dt == "f4":
            case = dict(case, noise=0.0, wrange=0.0, scale=1.0)
        d = build(case, dt)
        kw = dict(alphai=d["ai"], I0i=d["ii"], beam=d["beam"],
                  tol=1e-9 if dt == "f8" else 1e-5, maxiter=200)
        ins = [d[k] for k in ("data", "w", "fr", "ai", "ii", "beam")]
        keep = frozen(*ins)
        with sut("fit_spi_components"):
            o = m.fit_spi_components(d["data"], d["w"], d["fr"], d["f0"],
                                     **kw)
        unchanged(ins, keep, "fit_spi_components")
        n = case["ncomp"]
        expect(o.shape == (4, n) and o.dtype == np.dtype(dt),
               "fit_spi_components: %s %s", o.shape, o.dtype)
        ok = converges(d, d["ai"], d["ii"])
        full, o = o, o[:, ok]
        d0, d = d, dict(d, alpha=d["alpha"][ok], i0=d["i0"][ok],
                        data=d["data"][ok], beam=None if d["beam"] is None
                        else d["beam"][ok])
        n = int(ok.sum())
        if case["noise"] == 0:
            close(o[0], d["alpha"], tol, "spectral index of noise-free data")
            close(o[2] / d["i0"], np.ones(n), tol, "flux of noise-free data "
                  "over the true one")
            close(o[1], np.zeros(n), tol, "variance of noise-free data")
            close(o[3], np.zeros(n), tol, "variance of noise-free data")
        else:
            for c in range(n):
                b = 1.0 if d["beam"] is None else d["beam"][c]
                x = d["fr"] / d["f0"]
                j1 = b * x ** o[0, c]
                model = o[2, c] * j1
                J = np.stack([model * np.log(x), j1])
                r = d["data"][c] - model
                H = (J * d["w"]) @ J.T
                s = np.linalg.norm((J * d["w"]), axis=1) * np.linalg.norm(r)
                close((J * d["w"]) @ r, np.zeros(2), 1e-5,
                      "gradient of the weighted least squares at the fit",
                      scale=s + 1e-12)
                V = np.linalg.inv(H) * (r * d["w"] * r).sum() / (len(x) - 2)
                close(o[1, c] / V[0, 0], 1.0, 1e-4, "variance of the "
                      "spectral index")
                close(o[3, c] / V[1, 1], 1.0, 1e-4, "variance of the flux")
        n, o, d = case["ncomp"], full, d0
        A = da.from_array
        S, f = tuple(case["sc"]), case["nchan"]
        L = dict(kw, alphai=None if d["ai"] is None else
                 A(d["ai"], chunks=(S,)), I0i=None if d["ii"] is None else
                 A(d["ii"], chunks=(S,)), beam=None if d["beam"] is None else
                 A(d["beam"], chunks=(S, f)))
        with sut("building dask fit_spi_components"):
            z = md.fit_spi_components(
                A(d["data"], chunks=(S, f)), A(d["w"], chunks=f),
                A(d["fr"], chunks=f), d["f0"], **L)
        with sut("computing dask fit_spi_components"):
            g, = sched.compute(z, seed=case["sched"])
        close(g[:, ok], o[:, ok], 1e-12 if dt == "f8" else 1e-5,
              "dask fit_spi_components")
        expect(z.shape == g.shape and z.dtype == g.dtype, "dask "
               "fit_spi_components declares %s %s but holds %s %s", z.shape,
               z.dtype, g.shape, g.dtype)
        expect_raises((ValueError,), "chunked channels", lambda:
                      md.fit_spi_components(
                          A(d["data"], chunks=(S, 1)), A(d["w"], chunks=1),
                          A(d["fr"], chunks=1), d["f0"]))
        with sut("fit_spi_components with default tolerance"):
            o2 = m.fit_spi_components(d["data"], d["w"], d["fr"], d["f0"],
                                      beam=d["beam"])
        ok &= converges(d, None, None)
        close(o2[:, ok][[0, 2]], o[:, ok][[0, 2]], 5e-3, "fit with default tolerance and "
              "starting point")
        expect_raises((ValueError,), "integer data", lambda:
                      m.fit_spi_components(d["data"].astype(np.int64), d["w"],
                                           d["fr"], d["f0"]))
        return ok.sum() > 1, ["noisy" if case["noise"] else "exact", case["ref"]]
    return go


SUBS = [Sub("double", gen, run("f8", 1e-6), 300, 5000),
        Sub("single", gen, run("f4", 2e-3), 150, 2000)]

SUBS += [strided(s, 30, 400) for s in SUBS if s.name in
         ['double']]

for _s in SUBS:
    _s.quick *= 3

SUBS += all_histories(SUBS)
