"""C28: the faceting (Perley polyhedron) gridder, degridder and kernels."""
import numpy as np
from hypothesis import strategies as st
from vlib.core import all_histories, scaled
from vlib.core import strided, sz, Sub, sut, imp, expect, expect_raises, close, rng, \
    frozen, unchanged, Known
from vlib import sched

PROPERTY = "C28"
RULE = ("generated baselines (also beyond the grid), visibilities, bands, "
        "facet centres, kernels and policies against a per-sample "
        "convolution, spherical rotations and Stokes algebra in numpy, eager "
        "and in random chunks computed in random order; non-trivial: two or "
        "more rows and channels")
PP = "africanus.gridding.perleypolyhedron."

# correlation products of each Stokes parameter: value of V_i per unit Stokes
ALG = {("XX", "I"): 1, ("YY", "I"): 1, ("RR", "I"): 1, ("LL", "I"): 1,
       ("XX", "Q"): 1, ("YY", "Q"): -1, ("RL", "Q"): 1, ("LR", "Q"): 1,
       ("XY", "U"): 1, ("YX", "U"): 1, ("RL", "U"): 1j, ("LR", "U"): -1j,
       ("XY", "V"): 1j, ("YX", "V"): -1j, ("RR", "V"): 1, ("LL", "V"): -1}
FORWARD = ["XXYY_FROM_I", "XXXYYXYY_FROM_I", "RRLL_FROM_I", "RRRLLRLL_FROM_I",
           "XXYY_FROM_Q", "XXXYYXYY_FROM_Q", "RLLR_FROM_Q", "RRRLLRLL_FROM_Q",
           "XYYX_FROM_U", "XXXYYXYY_FROM_U", "RLLR_FROM_U", "RRRLLRLL_FROM_U",
           "XYYX_FROM_V", "XXXYYXYY_FROM_V", "RRLL_FROM_V", "RRRLLRLL_FROM_V"]
# there is no Q_FROM_RLLR
BACK = [f.split("_FROM_")[1] + "_FROM_" + f.split("_FROM_")[0]
        for f in FORWARD if f != "RLLR_FROM_Q"]


def corrs(policy):
    a, b = policy.split("_FROM_")
    s, c = (a, b) if len(a) == 1 else (b, a)
    names = [c[i:i + 2] for i in range(0, len(c), 2)]
    return s, names, np.array([ALG.get((n, s), 0) for n in names])


def to_stokes(vis, policy):
    """the least squares estimate of the Stokes parameter"""
    s, _, a = corrs(policy)
    return vis @ a.conj() / np.sum(np.abs(a) ** 2)


# geometry
def axes_of(ra, dec):
    """east, north and centre unit vectors at a direction"""
    return np.array([[-np.sin(ra), np.cos(ra), 0],
                     [-np.sin(dec) * np.cos(ra), -np.sin(dec) * np.sin(ra),
                      np.cos(dec)],
                     [np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra),
                      np.sin(dec)]])


def lmn(centre, p0):
    return axes_of(*p0) @ axes_of(*centre)[2]


def baselines(uvw, centre, p0, policy):
    if policy == "None":
        return uvw
    if policy == "rotate":
        return uvw @ (axes_of(*centre) @ axes_of(*p0).T).T
    l, m, n = lmn(centre, p0)
    return uvw - uvw[:, 2:] * np.array([l / n, m / n, 0])


def phase(uvw, lam, centre, p0, policy):
    if policy == "None":
        return np.ones((len(uvw), len(lam)))
    l, m, n = lmn(centre, p0)
    x = uvw @ np.array([l, m, n - 1])
    return np.exp(2j * np.pi * x[:, None] / lam)


def taps(x, npix, W, OS, K):
    """grid indices and kernel values of one coordinate"""
    off = x + npix // 2
    near = int(np.round(off))
    shift = int((near - off) * OS)
    return [(near + t, K[(t + W // 2 + 1) * OS + shift])
            for t in range(-(W // 2), W // 2 + 1)]


def ambiguous(xs, OS):
    """coordinates next to a step of the oversampled kernel"""
    f = np.abs(np.round(np.ravel(xs)) - np.ravel(xs)) * OS
    return bool(np.any(np.abs(f - np.round(f)) < 1e-6) or
                np.any(np.abs(f - OS / 2) < 1e-6))


def draw_base(draw):
    c = dict(seed=draw(st.integers(0, 2 ** 32 - 1)),
             nrow=sz(draw, 1, 8, 60), nchan=sz(draw, 1, 4, 12),
             npix=draw(st.integers(4, 14)), W=draw(st.sampled_from([1, 3, 5])),
             OS=draw(st.integers(1, 9)),
             kern=draw(st.sampled_from(["sinc", "kbsinc", "hanningsinc"])),
             wide=draw(st.sampled_from([.7, 1.0, 2.0])),
             p0=[draw(st.floats(-3, 3)), draw(st.floats(-1.2, 1.2))],
             nfacet=draw(st.integers(1, 3)),
             bands=draw(st.lists(st.integers(0, 2), min_size=4, max_size=4)),
             spread=draw(st.sampled_from([.05, .3, .6])),
             sched=draw(st.integers(0, 2 ** 32 - 1)))
    for k, n in (("rc", "nrow"), ("fc", "nchan"), ("cc", "nfacet")):
        c[k] = sched.chunks(draw, st, c[n], 3)
    return c


class Setup(object):
    def __init__(self, case, ncorr):
        k = imp(PP + "kernels")
        R = rng(case)
        c = case
        self.npix, self.W, self.OS = c["npix"], c["W"], c["OS"]
        with sut("kernel %s" % c["kern"]):
            self.K = getattr(k, c["kern"])(self.W, oversample=self.OS)
            self.packed = k.pack_kernel(self.K, self.W, self.OS)
        if not np.all(np.isfinite(self.K)):
            raise ValueError("kernel")
        self.lam = R.uniform(.1, .3, c["nchan"])
        self.chanmap = np.array((c["bands"] * 4)[:c["nchan"]])
        self.cell = R.uniform(5, 40)
        scale = self.npix * self.cell / 3600 * np.pi / 180
        self.scale = scale
        # from the centre of the grid to beyond its edges
        b = c["wide"] * self.npix / 2 * self.lam.min() / scale
        self.uvw = R.uniform(-b, b, (c["nrow"], 3))
        self.vis = R.normal(size=(c["nrow"], c["nchan"], ncorr)) + \
            1j * R.normal(size=(c["nrow"], c["nchan"], ncorr))
        self.p0 = tuple(c["p0"])
        self.centres = np.array(self.p0) + c["spread"] * R.uniform(
            -1, 1, (c["nfacet"], 2))
        self.nband = self.chanmap.max() + 1
        self.grid = R.normal(size=(c["nfacet"], self.nband, self.npix,
                                   self.npix)) + 0j
        self.grid += 1j * R.normal(size=self.grid.shape)
        self.normalised = None

    def uv(self, f, btp):
        b = baselines(self.uvw, self.centres[f], self.p0, btp)
        return b[:, None, :2] * self.scale / self.lam[None, :, None]

    def ref_grid(self, f, btp, ptp, stokes, conv, normal):
        uv = self.uv(f, btp)
        v = to_stokes(self.vis, stokes) * phase(self.uvw, self.lam,
                                                self.centres[f], self.p0, ptp)
        g = np.zeros((self.nband, self.npix, self.npix), complex)
        wt = np.zeros(self.nband)
        n = self.npix
        for r in range(len(self.uvw)):
            for c in range(len(self.lam)):
                x, y = uv[r, c]
                if conv == "nn":
                    tx = [(int(np.round(x + n // 2)), 1.0)]
                    ty = [(int(np.round(y + n // 2)), 1.0)]
                else:
                    tx = taps(x, n, self.W, self.OS, self.K)
                    ty = taps(y, n, self.W, self.OS, self.K)
                for j, kj in ty:
                    for i, ki in tx:
                        wt[self.chanmap[c]] += kj * ki
                        if 0 <= i < n and 0 <= j < n:
                            g[self.chanmap[c], j, i] += kj * ki * v[r, c]
        if normal:
            g /= (wt + 1e-8)[:, None, None]
        self.wt = wt
        return g

    def ref_degrid(self, f, btp, ptp, stokes):
        uv = self.uv(f, btp)
        s, names, a = corrs(stokes)
        n = self.npix
        out = np.zeros((len(self.uvw), len(self.lam), len(names)), complex)
        cond = 1.0
        for r in range(len(self.uvw)):
            for c in range(len(self.lam)):
                x, y = uv[r, c]
                acc, w, mag = 0, 0, 0
                for j, kj in taps(y, n, self.W, self.OS, self.K):
                    for i, ki in taps(x, n, self.W, self.OS, self.K):
                        if 0 <= i < n and 0 <= j < n:
                            acc += kj * ki * self.grid[f, self.chanmap[c], j,
                                                       i]
                            w += kj * ki
                            mag += abs(kj * ki)
                out[r, c] = acc / (w + 1e-8) * a
                cond = max(cond, mag / max(abs(w + 1e-8), 1e-300))
        ph = phase(self.uvw, self.lam, self.centres[f], self.p0, ptp)
        self.cond = cond
        return out * ph.conj()[:, :, None]

    def steps(self, btp):
        return any(ambiguous(self.uv(f, btp), self.OS)
                   for f in range(len(self.centres)))


def gen_grid(combos):
    def gen(draw):
        c = draw_base(draw)
        c["combo"] = list(draw(st.sampled_from(combos)))
        c["normal"] = draw(st.booleans())
        return c
    return gen


SCAT = {"packed": "conv_1d_axisymmetric_packed_scatter",
        "unpacked": "conv_1d_axisymmetric_unpacked_scatter",
        "nn": "conv_nn_scatter"}
GATH = {"packed": "conv_1d_axisymmetric_packed_gather",
        "unpacked": "conv_1d_axisymmetric_unpacked_gather"}


def run_grid(lazy):
    def run(case):
        g = imp(PP + "gridder", "gridder")
        btp, ptp, stokes, conv = case["combo"]
        s = Setup(case, len(corrs(stokes)[1]))
        if s.steps(btp):
            return False, ["at a step"]
        kern = s.K if conv == "unpacked" else s.packed
        ins = (s.uvw, s.vis, s.lam, s.chanmap, kern)
        keep = frozen(*ins)
        # chunks are normalised separately (known finding): one chunk then
        normal = case["normal"] and not (lazy and len(case["rc"]) > 1)
        tail = (kern, s.W, s.OS, btp, ptp, stokes, SCAT[conv])
        refs = [s.ref_grid(f, btp, ptp, stokes, conv, normal)
                for f in range(len(s.centres))]
        low = 1 + np.abs(s.vis).sum() / (
            1 if not normal else max(np.abs(s.wt[s.wt != 0] + 1e-8).min(),
                                     1e-300) if np.any(s.wt != 0) else 1)
        what = "gridder(%s, %s, %s, %s, normalise=%s)" % (
            btp, ptp, stokes, conv, normal)
        if not lazy:
            for f, w in enumerate(refs):
                with sut(what):
                    o = g(s.uvw, s.vis, s.lam, s.chanmap, s.npix, s.cell,
                          tuple(s.centres[f]), s.p0, *tail,
                          do_normalize=normal)
                close(o, w, 1e-11, what, scale=low)
            unchanged(ins, keep, what)
        else:
            import dask.array as da
            d = imp(PP + "dask", "gridder")
            A = da.from_array
            R, F, C = [tuple(case[k]) for k in ("rc", "fc", "cc")]
            nc = s.vis.shape[2]
            with sut("building dask " + what):
                z = d(A(s.uvw, chunks=(R, 3)), A(s.vis, chunks=(R, F, nc)),
                      A(s.lam, chunks=(F,)), A(s.chanmap, chunks=(F,)),
                      s.npix, s.cell, A(s.centres, chunks=(C, 2)), s.p0,
                      *tail, do_normalize=normal)
            with sut("computing dask " + what):
                o, = sched.compute(z, seed=case["sched"])
            close(o, np.stack(refs)[:, None], 1e-11, "dask " + what,
                  scale=low)
            unchanged(ins, keep, "dask " + what)
            if len(case["rc"]) > 1:
                expect_raises((ValueError,), "uvw chunked unlike vis", lambda:
                              d(A(s.uvw, chunks=(-1, 3)),
                                A(s.vis, chunks=(R, F, nc)),
                                A(s.lam, chunks=(F,)),
                                A(s.chanmap, chunks=(F,)), s.npix, s.cell,
                                A(s.centres, chunks=(C, 2)), s.p0, *tail))
        bad = dict(uvw=(s.uvw[:, :2], s.vis, s.lam, s.chanmap),
                   rows=(np.concatenate([s.uvw] * 2), s.vis, s.lam,
                         s.chanmap),
                   map=(s.uvw, s.vis, s.lam, np.append(s.chanmap, 0)),
                   chan=(s.uvw, s.vis, np.append(s.lam, .2),
                         np.append(s.chanmap, 0)))
        if not lazy:
            for k, a in bad.items():
                expect_raises((ValueError,), "gridder of malformed %s" % k,
                              lambda: g(*(a + (s.npix, s.cell,
                                               tuple(s.centres[0]), s.p0)
                                          + tail)))
        return min(case["nrow"], case["nchan"]) > 1, [
            "%s %s %s" % (btp, ptp, conv)]
    return run


def run_degrid(lazy):
    def run(case):
        m = imp(PP + "degridder")
        btp, ptp, stokes, conv = case["combo"]
        s = Setup(case, 2)
        if s.steps(btp):
            return False, ["at a step"]
        kern = s.K if conv == "unpacked" else s.packed
        ins = (s.uvw, s.grid, s.lam, s.chanmap, kern)
        keep = frozen(*ins)
        tail = (kern, s.W, s.OS, btp, ptp, stokes, GATH[conv])
        what = "degridder(%s, %s, %s, %s)" % (btp, ptp, stokes, conv)
        refs, scale = [], 1.0
        for f in range(len(s.centres)):
            refs.append(s.ref_degrid(f, btp, ptp, stokes))
            # samples whose weights cancel are ill-conditioned
            scale = max(scale, 1 + np.abs(refs[-1]).max() + s.cond *
                        np.abs(s.grid).max())
        if not scale < 1e6:
            return False, ["ill-conditioned"]
        if not lazy:
            for name in ("degridder", "degridder_serial"):
                if name == "degridder" and case["seed"] % 3:
                    continue
                for f, w in enumerate(refs):
                    with sut(what):
                        o = getattr(m, name)(
                            s.uvw, s.grid[f], s.lam, s.chanmap, s.cell,
                            tuple(s.centres[f]), s.p0, *tail)
                    close(o, w, 1e-10, what, scale=scale)
            unchanged(ins, keep, what)
            d = m.degridder_serial
            bad = dict(square=(s.uvw, s.grid[0][:, 1:], s.lam, s.chanmap),
                       uvw=(s.uvw[:, :2], s.grid[0], s.lam, s.chanmap),
                       map=(s.uvw, s.grid[0], s.lam, np.append(s.chanmap, 0)),
                       bands=(s.uvw, s.grid[0], s.lam,
                              np.full_like(s.chanmap, s.nband)))
            for k, a in bad.items():
                expect_raises((ValueError,), "degridder of malformed %s" % k,
                              lambda: d(*(a + (s.cell, tuple(s.centres[0]),
                                               s.p0) + tail)))
        else:
            import dask.array as da
            d = imp(PP + "dask", "degridder")
            A = da.from_array
            R, F, C = [tuple(case[k]) for k in ("rc", "fc", "cc")]
            n = s.npix
            with sut("building dask " + what):
                z = d(A(s.uvw, chunks=(R, 3)), A(s.grid, chunks=(
                    C, s.nband, n, n)), A(s.lam, chunks=(F,)),
                    A(s.chanmap, chunks=(F,)), s.cell,
                    A(s.centres, chunks=(C, 2)), s.p0, *tail)
            with sut("computing dask " + what):
                o, = sched.compute(z, seed=case["sched"])
            close(o, sum(refs), 1e-10, "dask " + what, scale=scale * 3)
            expect(z.shape == o.shape and z.dtype == o.dtype, "dask %s "
                   "declares %s %s but holds %s %s", what, z.shape, z.dtype,
                   o.shape, o.dtype)
            unchanged(ins, keep, "dask " + what)
            expect_raises((ValueError,), "more facets than centres", lambda:
                          d(A(s.uvw, chunks=(R, 3)),
                            A(np.concatenate([s.grid] * 2), chunks=(
                                -1, s.nband, n, n)), A(s.lam, chunks=(F,)),
                            A(s.chanmap, chunks=(F,)), s.cell,
                            A(s.centres, chunks=(C, 2)), s.p0, *tail))
        return min(case["nrow"], case["nchan"]) > 1, [
            "%s %s %s" % (btp, ptp, conv)]
    return run


def gen_kernel(draw):
    return dict(W=draw(st.sampled_from([1, 3, 5, 7])),
                OS=draw(st.integers(1, 15)), npix=draw(st.integers(1, 12)),
                kern=draw(st.sampled_from(["sinc", "kbsinc", "hanningsinc"])))


def run_kernel(case):
    m = imp(PP + "kernels")
    W, OS = case["W"], case["OS"]
    n = case["npix"]
    with sut("kernels"):
        u = m.uspace(W, OS)
        K = getattr(m, case["kern"])(W, oversample=OS)
        p = m.pack_kernel(K, W, OS)
        q = m.unpack_kernel(p, W, OS)
    close(u, np.arange(OS * (W + 2)) / OS - (W + 2) // 2, 1e-14, "uspace")
    expect(K.shape == u.shape, "kernel of %s samples", K.shape)
    close(np.sum(K), 1.0, 1e-10, "sum of kernel %s" % case)
    # mirror symmetric about the origin
    o = (W + 2) // 2 * OS
    h = min(o, len(K) - 1 - o)
    close(K[o - h:o + h + 1], K[o - h:o + h + 1][::-1], 1e-10,
          "kernel %s" % case, scale=1 + np.abs(K).max())
    close(q, K, 0, "unpacked packed kernel")
    for i in range(len(K)):
        expect(p[i % OS * (W + 2) + i // OS] == K[i], "packed kernel %s", p)
    x = (np.arange(n) - n // 2) / n
    f = np.exp(-2j * np.pi * x[:, None] * u) @ K
    w = np.abs(np.outer(f, f))
    scale = 1 + np.abs(K).sum() ** 2
    with sut("detapering functions"):
        a = m.compute_detaper_dft_seperable(n, K, W, OS)
        b = m.compute_detaper_dft(n, np.outer(K, K), W, OS)
    close(a, w, 1e-11, "compute_detaper_dft_seperable", scale=scale)
    close(b, w, 1e-11, "compute_detaper_dft", scale=scale)
    if n * OS >= len(K) + 1:
        with sut("compute_detaper"):
            c = m.compute_detaper(n, np.outer(K, K), W, OS)
        close(c, w, 1e-11, "compute_detaper", scale=scale)
    return OS > 1 and n > 1, [case["kern"]]


def gen_stokes(draw):
    c = draw_base(draw)
    c.update(nrow=2, nchan=1, W=1, OS=3, npix=6, wide=.5, nfacet=1, cc=[1],
             rc=[2], fc=[1], kern="sinc")
    c["policy"] = draw(st.sampled_from(FORWARD))
    return c


def run_stokes(case):
    """every conversion, there and back"""
    g = imp(PP + "gridder", "gridder")
    d = imp(PP + "degridder", "degridder_serial")
    py = imp(PP + "policies.stokes_conversion_policies", "ncorr_outpy")
    pol = case["policy"]
    s, names, a = corrs(pol)
    x = Setup(case, len(names))
    if x.steps("None"):
        return False, []
    with sut("ncorr_outpy"):
        n = py(pol)()
    expect(n == len(names), "ncorr_outpy(%s): %s", pol, n)
    fwd = (x.packed, 1, 3, "None", "None", pol, GATH["packed"])
    with sut("degridder " + pol):
        v = d(x.uvw, x.grid[0], x.lam, x.chanmap, x.cell, x.p0, x.p0, *fwd)
    w = x.ref_degrid(0, "None", "None", pol)
    scale = 1 + x.cond * np.abs(x.grid).max()
    if not scale < 1e6:
        return False, ["ill-conditioned"]
    close(v, w, 1e-10, "degridder " + pol, scale=scale)
    back = s + "_FROM_" + "".join(names)
    if back in BACK:
        tail = (x.packed, 1, 3, "None", "None", back, SCAT["nn"])
        with sut("gridder " + back):
            o = g(x.uvw[:1], x.vis[:1], x.lam, x.chanmap, x.npix, x.cell,
                  x.p0, x.p0, *tail)
        close(o.sum(), to_stokes(x.vis[0, 0], back), 1e-12,
              "gridder " + back)
    return True, [pol]


B, T = ["None", "rotate", "wlinapprox"], ["None", "phase_rotate"]
SUBS = [
    Sub("kernels", gen_kernel, run_kernel, 120, 2000),
    Sub("stokes", gen_stokes, run_stokes, 60, 300),
    Sub("grid_plain", gen_grid([("None", "None", "I_FROM_XXYY", c)
                                for c in ("packed", "unpacked", "nn")]),
        run_grid(False), 60, 1000),
    Sub("grid_facet", gen_grid([("rotate", "phase_rotate", "Q_FROM_XXXYYXYY",
                                 "packed"),
                                ("wlinapprox", "phase_rotate", "V_FROM_RRLL",
                                 "unpacked")]), run_grid(False), 60, 1000),
    Sub("grid_mixed", gen_grid([("rotate", "None", "U_FROM_XYYX", "nn"),
                                ("None", "phase_rotate", "I_FROM_RRRLLRLL",
                                 "packed")]), run_grid(False), 40, 600),
    Sub("grid_dask", gen_grid([("None", "None", "I_FROM_XXYY", "packed"),
                               ("rotate", "phase_rotate", "I_FROM_XXYY",
                                "packed")]), run_grid(True), 50, 600),
    Sub("degrid_plain", gen_grid([("None", "None", "XXYY_FROM_I", "packed"),
                                  ("None", "None", "XXXYYXYY_FROM_Q",
                                   "unpacked")]), run_degrid(False), 50, 800),
    Sub("degrid_facet", gen_grid([("rotate", "phase_rotate", "XXYY_FROM_I",
                                   "packed"),
                                  ("wlinapprox", "phase_rotate",
                                   "RRRLLRLL_FROM_U", "unpacked")]),
        run_degrid(False), 50, 800),
    Sub("degrid_mixed", gen_grid([("rotate", "None", "XYYX_FROM_V",
                                   "unpacked"),
                                  ("None", "phase_rotate", "RRLL_FROM_I",
                                   "packed")]), run_degrid(False), 40, 500),
    Sub("degrid_dask", gen_grid([("None", "None", "XXYY_FROM_I", "packed"),
                                 ("rotate", "phase_rotate", "XXYY_FROM_I",
                                  "packed")]), run_degrid(True), 50, 600)]


def chunks_normalised_separately():
    """do_normalize with chunks of different weights"""
    import dask.array as da
    g, d = imp(PP + "gridder", "gridder"), imp(PP + "dask", "gridder")
    A = da.from_array
    c = dict(seed=1, nrow=4, nchan=1, npix=8, W=3, OS=3, kern="sinc",
             wide=.7, p0=[.3, .3], nfacet=1, bands=[0] * 4, spread=.05)
    s = Setup(c, 2)
    tail = (s.packed, s.W, s.OS, "None", "None", "I_FROM_XXYY",
            SCAT["packed"])
    R = ((1, 3),)
    e = g(s.uvw, s.vis, s.lam, s.chanmap, s.npix, s.cell,
          tuple(s.centres[0]), s.p0, *tail, do_normalize=True)
    z = d(A(s.uvw, chunks=R + (3,)), A(s.vis, chunks=R + (1, 2)),
          A(s.lam, chunks=1), A(s.chanmap, chunks=1), s.npix, s.cell,
          A(s.centres, chunks=(1, 2)), s.p0, *tail, do_normalize=True)
    return not np.allclose(z.compute(scheduler="sync")[0, 0], e)


KNOWN = [Known("normalise-chunks", chunks_normalised_separately)]

SUBS += [strided(s, 30, 400) for s in SUBS if s.name in
         ['grid_plain', 'grid_facet', 'degrid_plain', 'degrid_facet']]

SUBS += all_histories(SUBS, 4) + scaled(SUBS)
