"""C18: primary beams: interpolated beam cubes and Zernike polynomials."""
import numpy as np
from hypothesis import strategies as st
from vlib.core import all_histories, scaled
from vlib.core import strided, sz, Sub, sut, imp, expect, expect_raises, close, rng, \
    frozen, unchanged
from vlib import sched

PROPERTY = "C18"
RULE = ("generated beam cubes, extents, frequency grids, sources (inside, on "
        "grid points, beyond the edges), frequencies (inside, on grid "
        "points, outside), pointing errors, rotations and scalings against a "
        "trilinear interpolation in numpy; Zernike beams against Jacobi "
        "polynomials; eager and in random chunks; non-trivial: more than one "
        "source, channel and antenna")


def gen_beam(draw):
    c = dict(seed=draw(st.integers(0, 2 ** 32 - 1)),
             lw=sz(draw, 2, 6, 40), mh=sz(draw, 2, 6, 40),
             nud=sz(draw, 2, 5, 30), nsrc=sz(draw, 1, 6, 60),
             ntime=sz(draw, 1, 3, 15), nant=sz(draw, 1, 3, 20),
             nchan=sz(draw, 1, 6, 40),
             still=draw(st.booleans()), flip=draw(st.sampled_from(
                 ["", "", "l", "m", "lm"])),
             zeros=draw(st.booleans()),
             where=draw(st.sampled_from(["in", "grid", "any", "edge"])),
             chan=draw(st.lists(st.sampled_from(
                 ["in", "grid", "first", "last", "below", "above"]),
                 min_size=6, max_size=6)),
             sched=draw(st.integers(0, 2 ** 32 - 1)))
    for k, n in (("sc", "nsrc"), ("tc", "ntime"), ("ac", "nant"),
                 ("fc", "nchan")):
        c[k] = sched.chunks(draw, st, c[n], 3)
    return c


def build_beam(case, corr, dt):
    R = rng(case)
    lw, mh, nud, s, t, a, f = [case[k] for k in (
        "lw", "mh", "nud", "nsrc", "ntime", "nant", "nchan")]
    beam = (R.uniform(0.2, 1, (lw, mh, nud) + corr) *
            np.exp(1j * R.uniform(-1, 1, (lw, mh, nud) + corr))).astype(dt)
    if case["zeros"]:
        beam[R.uniform(size=beam.shape) < 0.3] = 0
    ext = np.array([[-R.uniform(.5, 1), R.uniform(.4, 1)],
                    [-R.uniform(.5, 1), R.uniform(.4, 1)]])
    for i, ax in enumerate("lm"):
        if ax in case["flip"]:
            ext[i] = ext[i, ::-1]
    fmap = np.cumsum(R.uniform(0.05e9, 0.3e9, nud)) + 0.8e9
    lo, hi = ext.min(1), ext.max(1)
    if case["where"] == "grid":
        u = np.stack([R.randint(0, lw, s) / (lw - 1.0),
                      R.randint(0, mh, s) / (mh - 1.0)], 1)
    else:
        sp = dict(any=(-.5, 1.5), edge=(-.02, 1.02))
        u = R.uniform(*(sp.get(case["where"], (0, 1))), size=(s, 2))
        if case["where"] == "edge":
            u = np.where(R.uniform(size=u.shape) < .5, np.round(u), u)
    lm = lo + u * (hi - lo)
    fr = []
    for k in (case["chan"] * 9)[:f]:
        i = R.randint(0, nud - 1)
        fr.append({"in": fmap[i] + R.uniform(0.01, .99) *
                   (fmap[i + 1] - fmap[i]), "grid": fmap[i],
                   "first": fmap[0], "last": fmap[-1],
                   "below": fmap[0] * R.uniform(.3, 1),
                   "above": fmap[-1] * R.uniform(1, 2)}[k])
    still = case["still"]
    d = dict(beam=beam, ext=ext, fmap=fmap, lm=lm,
             pa=R.uniform(-4, 4, (t, a)) * (not still),
             pe=R.uniform(-.2, .2, (t, a, f, 2)) * (not still),
             sc=R.uniform(.7, 1.3, (a, f, 2)) if not still
             else np.ones((a, f, 2)), fr=np.array(fr))
    return d


def ref_beam(d):
    beam = d["beam"].astype("c16")
    lw, mh, nud = beam.shape[:3]
    s, (t, a), f = len(d["lm"]), d["pa"].shape, len(d["fr"])
    corr = beam.shape[3:]
    out = np.zeros((s, t, a, f) + corr, "c16")
    amp = np.ones(out.shape)
    fr, fmap = d["fr"], d["fmap"]
    for c in range(f):
        scale = 1.0
        if fr[c] < fmap[0]:
            scale = fr[c] / fmap[0]
        elif fr[c] > fmap[-1]:
            scale = fr[c] / fmap[-1]
        z = np.interp(fr[c], fmap, np.arange(nud))
        k = min(int(z), nud - 2)
        wz = [(k, 1 - (z - k)), (k + 1, z - k)]
        for i in range(s):
            for it in range(t):
                for ia in range(a):
                    q = d["lm"][i] * scale + d["pe"][it, ia, c]
                    q = (q[0] + 1j * q[1]) * np.exp(1j * d["pa"][it, ia])
                    x = q.real * d["sc"][ia, c, 0]
                    y = q.imag * d["sc"][ia, c, 1]
                    x = (x - d["ext"][0, 0]) / (
                        d["ext"][0, 1] - d["ext"][0, 0]) * (lw - 1)
                    y = (y - d["ext"][1, 0]) / (
                        d["ext"][1, 1] - d["ext"][1, 0]) * (mh - 1)
                    x, y = np.clip(x, 0, lw - 1), np.clip(y, 0, mh - 1)
                    p, r = min(int(x), lw - 2), min(int(y), mh - 2)
                    v, av = 0, 0
                    for pp, wx in ((p, 1 - (x - p)), (p + 1, x - p)):
                        for rr, wy in ((r, 1 - (y - r)), (r + 1, y - r)):
                            for kk, w in wz:
                                v = v + wx * wy * w * beam[pp, rr, kk]
                                av = av + wx * wy * w * abs(beam[pp, rr, kk])
                    ab = np.abs(v)
                    out[i, it, ia, c] = np.where(
                        ab > 0, v * av / np.where(ab > 0, ab, 1), 0)
                    amp[i, it, ia, c] = 1 + np.where(
                        ab > 0, av / np.where(ab > 0, ab, 1), 0)
    # a sum that cancels has no well-defined phase
    return out, np.minimum(amp, 1e6)


def run_beam(corr, dt, tol):
    def run(case):
        import dask.array as da
        m, md = imp("africanus.rime"), imp("africanus.rime.dask")
        d = build_beam(case, corr, dt)
        keep = frozen(*d.values())
        with sut("beam_cube_dde"):
            o = m.beam_cube_dde(*d.values())
        unchanged(d.values(), keep, "beam_cube_dde")
        expect(o.dtype == np.dtype(dt), "beam_cube_dde: dtype %s from %s",
               o.dtype, dt)
        w, amp = ref_beam(d)
        # a weight that rounds to zero on one side flips the phase of
        # nothing at all: compare where there is something
        close(o, w, tol, "beam_cube_dde", scale=amp)
        A = da.from_array
        S, T, N, F = [tuple(case[k]) for k in ("sc", "tc", "ac", "fc")]
        ch = [d["beam"].shape, (2, 2), (case["nud"],), (S, 2), (T, N),
              (T, N, F, 2), (N, F, 2), (F,)]
        args = [A(x, chunks=c) for x, c in zip(d.values(), ch)]
        with sut("building dask beam_cube_dde"):
            z = md.beam_cube_dde(*args)
        with sut("computing dask beam_cube_dde"):
            g, = sched.compute(z, seed=case["sched"])
        close(g, o, 1e-15, "dask beam_cube_dde")
        expect(z.shape == g.shape and z.dtype == g.dtype, "dask "
               "beam_cube_dde declares %s %s but holds %s %s", z.shape,
               z.dtype, g.shape, g.dtype)
        for i, ax, what in ((0, 0, "beam"), (0, 2, "beam"), (1, 0, "extents"),
                            (2, 0, "frequency map")):
            bad = list(args)
            bad[i] = bad[i].rechunk({ax: 1})
            expect_raises((ValueError,), "a chunked %s" % what,
                          lambda: md.beam_cube_dde(*bad))
        return min(case["nsrc"], case["nchan"], case["nant"]) > 1, \
            [case["where"]] + sorted(set(case["chan"][:case["nchan"]]))
    return run


def gen_small(draw):
    return dict(seed=draw(st.integers(0, 2 ** 32 - 1)), lw=draw(
        st.integers(1, 3)), mh=draw(st.integers(1, 3)),
        nud=draw(st.integers(1, 3)))


def run_small(case):
    m = imp("africanus.rime")
    lw, mh, nud = case["lw"], case["mh"], case["nud"]
    a = (np.ones((lw, mh, nud, 2, 2), "c16"),
         np.array([[-1., 1], [-1, 1]]), np.linspace(1e9, 2e9, nud),
         np.zeros((1, 2)), np.zeros((1, 1)), np.zeros((1, 1, 1, 2)),
         np.ones((1, 1, 2)), np.array([1.5e9]))
    if min(lw, mh, nud) < 2:
        expect_raises((ValueError,), "a beam of %dx%dx%d" % (lw, mh, nud),
                      lambda: m.beam_cube_dde(*a))
        return True, ["rejected"]
    with sut("beam_cube_dde"):
        o = m.beam_cube_dde(*a)
    close(o, np.ones((1, 1, 1, 1, 2, 2)), 1e-12, "a constant beam")
    return False, []


def noll(j):
    """j >= 1 -> (n, m), by enumeration"""
    n, first = 0, 1
    while first + n < j:
        first += n + 1
        n += 1
    # orders of this degree, each non-zero one twice
    ms = []
    for m in range(n % 2, n + 1, 2):
        ms += [0] if m == 0 else [m, m]
    m = ms[j - first]
    return n, (m if j % 2 == 0 else -m)


def zern(j, l, m_):
    from scipy.special import eval_jacobi
    n, m = noll(j + 1)
    rho, phi = np.hypot(l, m_), np.arctan2(l, m_)
    k = (n - abs(m)) // 2
    r = (-1) ** k * rho ** abs(m) * eval_jacobi(k, abs(m), 0,
                                                1 - 2 * rho ** 2)
    r = r * (np.cos(m * phi) if m >= 0 else np.sin(-m * phi))
    return np.where(rho > 1, 0.0, r)


def gen_zern(draw):
    c = dict(seed=draw(st.integers(0, 2 ** 32 - 1)),
             nsrc=sz(draw, 1, 5, 40), ntime=sz(draw, 1, 3, 15),
             nant=sz(draw, 1, 3, 20), nchan=sz(draw, 1, 3, 15),
             npoly=sz(draw, 1, 6, 40),
             jmax=draw(st.sampled_from([3, 10, 40, 77])),
             corr=draw(st.sampled_from([[1], [2], [4], [2, 2]])),
             nd=draw(st.sampled_from(["i8", "f8"])),
             wide=draw(st.booleans()), centre=draw(st.booleans()),
             sched=draw(st.integers(0, 2 ** 32 - 1)))
    for k, n in (("sc", "nsrc"), ("tc", "ntime"), ("ac", "nant"),
                 ("fc", "nchan")):
        c[k] = sched.chunks(draw, st, c[n], 3)
    return c


def run_zern(case):
    import dask.array as da
    m, md = imp("africanus.rime"), imp("africanus.rime.dask")
    R = rng(case)
    s, t, a, f, p = [case[k] for k in ("nsrc", "ntime", "nant", "nchan",
                                       "npoly")]
    corr = tuple(case["corr"])
    x = 1.2 if case["wide"] else 0.65
    co = R.uniform(-x, x, (3, s, t, a, f))
    if case["centre"]:
        co[:, 0] = 0
    rho = np.hypot(co[0], co[1])
    co[:, np.abs(rho - 1) < 1e-6] = 0.5
    cf = R.normal(size=(a, f) + corr + (p,)) + \
        1j * R.normal(size=(a, f) + corr + (p,))
    nj = R.randint(0, case["jmax"] + 1, size=cf.shape).astype(case["nd"])
    keep = frozen(co, cf, nj)
    with sut("zernike_dde"):
        o = m.zernike_dde(co, cf, nj)
    unchanged((co, cf, nj), keep, "zernike_dde")
    w = np.zeros((s, t, a, f) + corr, "c16")
    for ix in np.ndindex(*cf.shape):
        ia, ic = ix[:2]
        k = ix[2:-1]
        z = cf[ix] * zern(int(nj[ix]), co[0, :, :, ia, ic],
                          co[1, :, :, ia, ic])
        w[(slice(None), slice(None), ia, ic) + k] += z
    close(o, w, 1e-9, "zernike_dde")
    S, T, N, F = [tuple(case[k]) for k in ("sc", "tc", "ac", "fc")]
    A = da.from_array
    with sut("building dask zernike_dde"):
        z = md.zernike_dde(A(co, chunks=(3, S, T, N, F)),
                           A(cf, chunks=(N, F) + corr + (p,)),
                           A(nj, chunks=(N, F) + corr + (p,)))
    with sut("computing dask zernike_dde"):
        g, = sched.compute(z, seed=case["sched"])
    close(g, o, 1e-14, "dask zernike_dde")
    expect(z.shape == g.shape and z.dtype == g.dtype, "dask zernike_dde "
           "declares %s %s but holds %s %s", z.shape, z.dtype, g.shape,
           g.dtype)
    return min(s, a, f, p) > 1, []


SUBS = [Sub("cube_full", gen_beam, run_beam((2, 2), "c16", 1e-9), 120, 2500),
        Sub("cube_two", gen_beam, run_beam((2,), "c16", 1e-9), 80, 1500),
        Sub("cube_single", gen_beam, run_beam((2, 2), "c8", 1e-4), 60, 1000),
        Sub("small", gen_small, run_small, 40, 100),
        Sub("zernike", gen_zern, run_zern, 150, 2500)]

SUBS += [strided(s, 30, 400) for s in SUBS if s.name in
         ['cube_full', 'zernike']]

for _s in SUBS:
    _s.quick *= 2

SUBS += all_histories(SUBS) + scaled(SUBS)
