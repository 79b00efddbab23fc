"""C15: phase delays, feed rotation, parallactic angles, beam coordinates."""
import warnings

import numpy as np
from hypothesis import strategies as st
from vlib.core import all_histories
from vlib.core import strided, sz, Sub, sut, imp, expect, expect_raises, close, rng, \
    frozen, unchanged
from vlib import sched

PROPERTY = "C15"
RULE = ("generated sources, baselines, frequencies, angles, antennas and "
        "times, eager and in random chunks computed in random order, against "
        "the defining formulas; parallactic angles against an astropy "
        "computation of the direction of the zenith; non-trivial: at least "
        "two of everything")
C = 2.99792458e8


def lazy_check(name, arrs, seed, wants, tol, threads=False):
    with sut("computing dask " + name):
        vals = sched.compute(*arrs, seed=seed)
    if threads:
        import dask
        with sut("computing dask %s on threads" % name):
            more = dask.compute(*arrs, scheduler="threads")
        for g, m in zip(vals, more):
            close(m, g, 1e-15, "dask %s on threads" % name)
    for a, g, w in zip(arrs, vals, wants):
        close(g, w, tol, "dask " + name)
        expect(a.shape == g.shape and a.dtype == g.dtype, "dask %s declares "
               "%s %s but holds %s %s", name, a.shape, a.dtype, g.shape,
               g.dtype)


def gen_phase(draw):
    c = dict(seed=draw(st.integers(0, 2 ** 32 - 1)),
             nsrc=sz(draw, 1, 6, 60), nrow=sz(draw, 1, 8, 150),
             nchan=sz(draw, 1, 6, 40),
             conv=draw(st.sampled_from([None, "fourier", "casa"])),
             wide=draw(st.booleans()), centre=draw(st.booleans()),
             sched=draw(st.integers(0, 2 ** 32 - 1)))
    for k, n in (("sc", "nsrc"), ("rc", "nrow"), ("fc", "nchan")):
        c[k] = sched.chunks(draw, st, c[n], 3)
    return c


def run_phase(dts):
    def run(case):
        import dask.array as da
        m, md = imp("africanus.rime"), imp("africanus.rime.dask")
        R = rng(case)
        s = 0.7 if case["wide"] else 1e-3
        lm = R.uniform(-s, s, (case["nsrc"], 2)).astype(dts[0])
        if case["centre"]:
            lm[0] = 0
        b = 1e3 if dts == ("f8",) * 3 else 3
        uvw = R.uniform(-b, b, (case["nrow"], 3)).astype(dts[1])
        freq = R.uniform(0.5e9, 2e9, case["nchan"]).astype(dts[2])
        kw = {} if case["conv"] is None else dict(convention=case["conv"])
        keep = frozen(lm, uvw, freq)
        with sut("phase_delay"):
            o = m.phase_delay(lm, uvw, freq, **kw)
        unchanged((lm, uvw, freq), keep, "phase_delay")
        l, mm = lm.astype("f8").T
        n = np.sqrt(1 - l * l - mm * mm) - 1
        ph = (np.stack([l, mm, n], 1) @ uvw.astype("f8").T)
        ph = 2 * np.pi * ph[:, :, None] * freq.astype("f8") / C
        if case["conv"] != "casa":
            ph = -ph
        dt = np.result_type(*dts, "c8")
        expect(o.dtype == dt, "phase_delay: dtype %s from %s", o.dtype, dts)
        tol = (1 if dts == ("f8",) * 3 else 5e8) * 1e-14
        # digits of the argument that rounding can touch
        sc = 1 + 2 * np.pi * 2 * np.linalg.norm(uvw.astype("f8"), axis=1)[
            None, :, None] * freq.astype("f8") / C
        close(o, np.exp(1j * ph), tol, "phase_delay", scale=np.broadcast_to(
            sc, o.shape))
        sc_, rc, fc = [tuple(case[k]) for k in ("sc", "rc", "fc")]
        with sut("building dask phase_delay"):
            a = md.phase_delay(da.from_array(lm, chunks=(sc_, 2)),
                               da.from_array(uvw, chunks=(rc, 3)),
                               da.from_array(freq, chunks=(fc,)), **kw)
        lazy_check("phase_delay", [a], case["sched"], [o], 1e-15)
        expect_raises((ValueError,), "phase_delay convention 'other'",
                      lambda: m.phase_delay(lm, uvw, freq,
                                            convention="other"))
        return min(case["nsrc"], case["nrow"], case["nchan"]) > 1, \
            [str(case["conv"])]
    return run


def gen_feed(draw):
    nd = draw(st.integers(1, 3))
    shape = [sz(draw, 1, 5, 40) for _ in range(nd)]
    return dict(seed=draw(st.integers(0, 2 ** 32 - 1)), shape=shape,
                f4=draw(st.booleans()),
                feed=draw(st.sampled_from([None, "linear", "circular"])),
                order=draw(st.sampled_from(["C", "F"])),
                chunks=[sched.chunks(draw, st, n, 3) for n in shape],
                bad=draw(st.sampled_from(["Linear", "", "elliptical", "x"])),
                sched=draw(st.integers(0, 2 ** 32 - 1)))


def run_feed(case):
    import dask.array as da
    m, md = imp("africanus.rime"), imp("africanus.rime.dask")
    pa = rng(case).uniform(-7, 7, case["shape"]).astype(
        "f4" if case["f4"] else "f8")
    pa = np.array(pa, order=case["order"])
    keep = frozen(pa)
    feed = case["feed"] or "linear"
    with sut("feed_rotation"):
        o = m.feed_rotation(pa) if case["feed"] is None else \
            m.feed_rotation(pa, feed_type=feed)
    unchanged([pa], keep, "feed_rotation")
    p = pa.astype("f8")
    z = np.zeros_like(p)
    if feed == "linear":
        w = [[np.cos(p), np.sin(p)], [-np.sin(p), np.cos(p)]]
    else:
        w = [[np.exp(-1j * p), z], [z, np.exp(1j * p)]]
    w = np.moveaxis(np.array(w), (0, 1), (-2, -1))
    expect(o.dtype == (np.complex64 if case["f4"] else np.complex128),
           "feed_rotation: dtype %s from %s", o.dtype, pa.dtype)
    close(o, w, 1e-6 if case["f4"] else 1e-14, "feed_rotation (%s)" % feed)
    ch = tuple(tuple(c) for c in case["chunks"])
    with sut("building dask feed_rotation"):
        a = md.feed_rotation(da.from_array(pa, chunks=ch), feed)
    lazy_check("feed_rotation", [a], case["sched"], [o], 1e-15)
    expect_raises((ValueError,), "feed type %r" % case["bad"],
                  lambda: m.feed_rotation(pa, feed_type=case["bad"]))
    expect_raises((ValueError,), "integer angles",
                  lambda: m.feed_rotation(pa.astype(np.int64)))
    expect_raises((ValueError,), "integer angles (dask)",
                  lambda: md.feed_rotation(da.from_array(
                      pa.astype(np.int64), chunks=ch), feed))
    return pa.size > 1, [feed]


def gen_xform(draw):
    c = dict(seed=draw(st.integers(0, 2 ** 32 - 1)),
             nsrc=sz(draw, 1, 5, 60), ntime=sz(draw, 1, 5, 40),
             nant=sz(draw, 1, 4, 70), nchan=sz(draw, 1, 4, 40),
             dtype=draw(st.sampled_from([None, "f8", "f4"])),
             sched=draw(st.integers(0, 2 ** 32 - 1)))
    for k, n in (("sc", "nsrc"), ("tc", "ntime"), ("ac", "nant"),
                 ("fc", "nchan")):
        c[k] = sched.chunks(draw, st, c[n], 3)
    return c


def run_xform(case):
    import dask.array as da
    m, md = imp("africanus.rime"), imp("africanus.rime.dask")
    R = rng(case)
    s, t, a, f = [case[k] for k in ("nsrc", "ntime", "nant", "nchan")]
    ins = dict(lm=R.uniform(-1, 1, (s, 2)), pa=R.uniform(-4, 4, (t, a)),
               pe=R.uniform(-.3, .3, (t, a, 2)),
               sc=R.uniform(0.5, 1.5, (a, f)), fr=R.uniform(1e9, 2e9, f))
    keep = frozen(*ins.values())
    dt = None if case["dtype"] is None else np.dtype(case["dtype"]).type
    kw = {} if dt is None else dict(dtype=dt)
    with sut("transform_sources"):
        o = m.transform_sources(*ins.values(), **kw)
    unchanged(ins.values(), keep, "transform_sources")
    lm, pa, pe, sc, fr = ins.values()
    z = (lm[:, 0] + 1j * lm[:, 1])[:, None, None] * np.exp(1j * pa)
    z = z + pe[:, :, 0] + 1j * pe[:, :, 1]
    z = z[..., None] * sc
    w = np.stack([z.real, z.imag, np.broadcast_to(fr, z.shape)])
    expect(o.dtype == np.dtype(case["dtype"] or "f8"),
           "transform_sources: dtype %s", o.dtype)
    tol = 1e-6 if case["dtype"] == "f4" else 1e-14
    close(o[:2], w[:2], tol, "transform_sources coordinates")
    close(o[2], w[2], tol, "transform_sources frequencies")
    S, T, A, F = [tuple(case[k]) for k in ("sc", "tc", "ac", "fc")]
    ch = [(S, 2), (T, A), (T, A, 2), (A, F), (F,)]
    with sut("building dask transform_sources"):
        d = md.transform_sources(*[da.from_array(x, chunks=c) for x, c in
                                   zip(ins.values(), ch)], **kw)
    lazy_check("transform_sources", [d], case["sched"], [o], 1e-15)
    return min(s, t, a, f) > 1, []


def gen_pa(draw):
    c = dict(seed=draw(st.integers(0, 2 ** 32 - 1)),
             ntime=draw(st.integers(1, 4)), nant=sz(draw, 1, 4, 70),
             threads=draw(st.booleans()),
             sched=draw(st.integers(0, 2 ** 32 - 1)),
             bad=draw(st.sampled_from(["CASA", "", "pyrap"])))
    for k, n in (("tc", "ntime"), ("ac", "nant")):
        c[k] = sched.chunks(draw, st, c[n], 3)
    return c


def zenith_pa(t, a, fc, geodetic=False):
    """Position angle of the geocentric (or geodetic) zenith seen from fc;
    distance."""
    import astropy.units as u
    from astropy.utils import iers
    from astropy.time import Time
    from astropy.coordinates import EarthLocation, SkyCoord, AltAz
    iers.conf.auto_download = False
    iers.conf.iers_degraded_accuracy = "ignore"
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        T = Time(t / 86400, format="mjd", scale="utc")
        loc = EarthLocation.from_geodetic(
            np.arctan2(a[:, 1], a[:, 0]) * u.rad,
            np.arctan2(a[:, 2], np.hypot(a[:, 0], a[:, 1])) * u.rad)
        if geodetic:
            loc = EarthLocation.from_geocentric(*a.T, unit="m")
        shape = (len(t), len(a))
        z = SkyCoord(AltAz(az=np.zeros(shape) * u.deg,
                           alt=np.full(shape, 90.) * u.deg,
                           location=loc[None], obstime=T[:, None]))
        z = z.transform_to("fk5")
        f = SkyCoord(ra=fc[0], dec=fc[1], unit="rad", frame="fk5")
        return f.position_angle(z).rad, f.separation(z).rad


def pa_inputs(case):
    R = rng(case)
    t = np.sort(R.uniform(4.6e9, 4.9e9, case["ntime"]))
    lat = R.uniform(-1.4, 1.4) + R.uniform(-.1, .1, case["nant"])
    lon = R.uniform(-3, 3) + R.uniform(-.1, .1, case["nant"])
    r = 6.37e6
    ap = np.stack([r * np.cos(lat) * np.cos(lon),
                   r * np.cos(lat) * np.sin(lon), r * np.sin(lat)], 1)
    fc = np.array([R.uniform(0, 6.28), R.uniform(-1.5, 1.5)])
    return t, ap, fc


def run_pa(case):
    import dask.array as da
    m, md = imp("africanus.rime"), imp("africanus.rime.dask")
    t, ap, fc = pa_inputs(case)
    keep = frozen(t, ap, fc)
    with sut("parallactic_angles (casa)"):
        o = m.parallactic_angles(t, ap, fc)
        o2 = m.parallactic_angles(t, ap, fc, backend="test")
    unchanged((t, ap, fc), keep, "parallactic_angles")
    w, sep = zenith_pa(t, ap, fc)
    expect(o.shape == w.shape, "parallactic_angles: shape %s, expected %s",
           o.shape, w.shape)
    close(np.exp(1j * o), np.exp(1j * w), 3e-5, "parallactic angles (casa) "
          "against the direction of the zenith", scale=1 / np.sin(sep))
    close(o2, t[:, None] * ap.sum(axis=1), 1e-14, "test backend")
    T, A = tuple(case["tc"]), tuple(case["ac"])
    with sut("building dask parallactic_angles"):
        d = [md.parallactic_angles(da.from_array(t, chunks=(T,)),
                                   da.from_array(ap, chunks=(A, 3)),
                                   da.from_array(fc, chunks=2), **kw)
             for kw in ({}, dict(backend="test"))]
    lazy_check("parallactic_angles", d, case["sched"], [o, o2], 1e-13,
               threads=case["threads"])
    expect_raises((ValueError,), "backend %r" % case["bad"],
                  lambda: m.parallactic_angles(t, ap, fc,
                                               backend=case["bad"]))
    expect_raises((ValueError,), "a field centre of three components",
                  lambda: m.parallactic_angles(t, ap, np.zeros(3)))
    return min(case["ntime"], case["nant"]) > 1, []


def run_pa_frames(case):
    """The geodetic zenith: casacore's AZELGEO frame, and astropy."""
    m = imp("africanus.rime")
    casa = imp("africanus.rime.parangles_casa", "casa_parallactic_angles")
    t, ap, fc = pa_inputs(case)
    keep = frozen(t, ap, fc)
    with sut("casa_parallactic_angles (AZELGEO)"):
        o = casa(t, ap, fc, zenith_frame="AZELGEO")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        zenith_pa(t[:1], ap[:1], fc)        # no downloads
        with sut("parallactic_angles (astropy)"):
            o2 = np.asarray(m.parallactic_angles(t, ap, fc,
                                                 backend="astropy"))
    unchanged((t, ap, fc), keep, "parallactic_angles")
    w, sep = zenith_pa(t, ap, fc, True)
    for g, what, tol in ((o, "casa, AZELGEO", 3e-5), (o2, "astropy", 3e-4)):
        expect(g.shape == w.shape, "parallactic_angles (%s): shape %s, "
               "expected %s", what, g.shape, w.shape)
        # angles at the field centre also turn about the pole
        s = 1 / np.sin(sep) + 1 / np.cos(fc[1])
        close(np.exp(1j * g), np.exp(1j * w), tol, "parallactic angles (%s) "
              "against the direction of the zenith" % what, scale=s)
    return min(case["ntime"], case["nant"]) > 1, []


SUBS = [Sub("phase", gen_phase, run_phase(("f8", "f8", "f8")), 150, 3000),
        Sub("phase_single", gen_phase, run_phase(("f4", "f4", "f4")), 80,
            1000),
        Sub("phase_mixed", gen_phase, run_phase(("f8", "f4", "f8")), 80,
            1000),
        Sub("feeds", gen_feed, run_feed, 200, 3000),
        Sub("transform", gen_xform, run_xform, 200, 3000),
        Sub("parangles", gen_pa, run_pa, 60, 500),
        Sub("zenith_frames", gen_pa, run_pa_frames, 12, 150)]

SUBS += [strided(s, 30, 400) for s in SUBS if s.name in
         ['phase', 'transform', 'feeds', 'parangles']]

for _s in SUBS:
    _s.quick *= 2

SUBS += all_histories(SUBS)
